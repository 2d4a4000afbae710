"""C16: bounds and starting points of the hyperparameter optimization."""
import numpy as np
from .. import gen, ref

RULE = ('case = random data, history of hyperparameters (some outside the ranges), ranges, factors, log10 flags and iteration; bounds of get_hp_bounds and get_hp_x0_lhs_median are compared with the '
        'documented construction, start points with the Latin hypercube laws, select_hp_optz_x0 with an exhaustive evaluation of the candidates; class = (kernel, method, use_grad, hyperparameters, flags, mode)')
ASSUMPTIONS = ['candidates are ranked by the likelihood and condition number the model itself returns (their correctness: C07, C09)',
               'histories hold a value for every hyperparameter that is optimized']
HISTN = dict(theta='hp_theta_all', kernel='hp_kernel_all', varK='hp_varK_all', var_fval='hp_var_fval_all', var_fgrad='hp_var_fgrad_all')


def shards(tier):
    k, n = (8, 1800) if tier == 'quick' else (24, 2500)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'lhs_bounds': 1000, 'x0_points': 8000, 'bounds': 2000, 'all_failed': 3, 'select_best': 500, 'select_lhs': 400, 'best_cond': 200, 'best_fallback': 25, 'best_fallback_with_failed': 5,
            'one_hp': 40, 'clipped': 300, 'strat': 800, 'hp:kernel': 150, 'hp:varK': 400, 'hp:var_fval': 150, 'hp:var_fgrad': 80}


def run(ctx):
    for i, rng in ctx.cases(ctx.shard['n']):
        case(ctx, rng)


def case(ctx, rng):
    wcs = ['precon', 'base', 'rescale_origin', 'dflt_vmin', 'dflt_vmax', 'rescale_eta_vary']
    sc = gen.gen(rng, wcs=wcs, nmax=5, nmin=2, dmax=3 if rng.random() < 0.85 else 5, ndata_max=20, moderate=True, cond_targets=[1e10, 1e8, 1e6, 1e4, 1e3], allow_dup=False,
                 noises=['zero', 'zero', 'known', 'hetero', 'unk_f', 'unk_g', 'unk'])
    gp = gen.mk_gp(sc)
    inf = sc.short()
    # options
    gp.optz_log_hp_theta, gp.optz_log_hp_var, gp.optz_log_hp_kernel = [bool(rng.random() < 0.7) for _ in range(3)]
    gp.hp_median_n_idx = int(rng.choice([1, 2, 3, 5, 5, 5, 8]))
    gp.hp_lhs_bound_factor = float(rng.choice([1e3, 1e3, 1e3, 2.0, 10.0, 1e5]))
    gp.hp_box_bound_factor = gp.hp_lhs_bound_factor * float(rng.choice([1.0, 10.0, 100.0, 100.0]))
    if rng.random() < 0.4:
        gp.b_optz_hp_kernel = bool(rng.random() < 0.6)
    wide = rng.random() < 0.5
    h = sc.hp
    th0 = float(np.exp(np.mean(np.log(h['theta']))))

    def rg(x0):
        a = 10.0 ** rng.uniform(0.3, 3)
        return [float(x0 / a), float(x0 * 10.0 ** rng.uniform(0.3, 3))]
    if not wide:
        gp.hp_theta_range = rg(th0)
        gp.hp_varK_range = rg(h['varK'])
        if sc.kernel == 'RatQu':
            gp.hp_kernel_range = rg(1.0)
        if h['var_fval'] is not None:
            gp.hp_var_fval_range = rg(h['var_fval'])
        if h['var_fgrad'] is not None:
            gp.hp_var_fgrad_range = rg(h['var_fgrad'])
    ok, _ = ctx.guard('set_data', gen.put_data, gp, sc, info=inf)
    if not ok:
        return
    n = int(rng.integers(1, 10))
    gp.init_optz_surr(n)
    hist = dict(theta=np.zeros((n, sc.dim)), kernel=np.full(n, np.nan), varK=np.zeros(n), var_fval=np.full(n, np.nan), var_fgrad=np.full(n, np.nan))
    for r in range(n):
        q = dict(h)
        m = 10.0 ** rng.uniform(-1.5, 1.5, 5 + sc.dim)
        q['theta'] = h['theta'] * m[5:]
        q['varK'] = float(h['varK'] * m[0])
        if sc.kernel == 'RatQu':
            q['kernel'] = float(10 ** rng.uniform(-1, 1))
        for j, k in ((1, 'var_fval'), (2, 'var_fgrad')):
            if q[k] is not None:
                q[k] = float(q[k] * m[j])
        gp.store_new_para_surr(r, gen.mk_hp(gp, q))
        for k in hist:
            if q[k] is not None:
                hist[k][r] = q[k]
    i = int(rng.integers(1, n + 1))
    info = gp.hp_info_optz_lkd
    names = [k for k in ('theta', 'kernel', 'varK', 'var_fval', 'var_fgrad') if getattr(info, 'has_' + k)]
    for k in names:
        ctx.count('hp:' + k)
    flags = dict(theta=gp.optz_log_hp_theta, kernel=gp.optz_log_hp_kernel, varK=gp.optz_log_hp_var, var_fval=gp.optz_log_hp_var, var_fgrad=gp.optz_log_hp_var)
    rng_of = dict(theta=gp.hp_theta_range, kernel=gp.hp_kernel_range, varK=gp.hp_varK_range, var_fval=gp.hp_var_fval_range, var_fgrad=gp.hp_var_fgrad_range)
    nhp = sum(sc.dim if k == 'theta' else 1 for k in names)
    tag = '+'.join(names)
    f = '%s:%s' % (tag, sc.weff)
    if gp.hp_info_optz_lkd.n_hp != nhp:
        ctx.violation('n_hp:' + f, dict(got=gp.hp_info_optz_lkd.n_hp, want=nhp), info=inf)
        return
    before = {k: np.array(getattr(gp, v), copy=True) for k, v in HISTN.items()}

    # ---- expected bounds around the median of the history
    lo, hi = max(0, i - gp.hp_median_n_idx), i

    def around(fac):
        lb, ub = [], []
        for k in names:
            med = np.atleast_1d(np.sort(hist[k][lo:hi], axis=0).astype(float))
            med = np.atleast_1d((med[(hi - lo - 1) // 2] + med[(hi - lo) // 2]) / 2)
            a, b = rng_of[k]
            if np.any(med < a) or np.any(med > b):
                ctx.count('clipped')
            med = np.clip(med, a, b)
            x, y = np.maximum(med / fac, a), np.minimum(med * fac, b)
            lb += list(np.log10(x) if flags[k] else x)
            ub += list(np.log10(y) if flags[k] else y)
        return np.array(lb), np.array(ub)
    blb, bub = around(gp.hp_box_bound_factor)
    llb, lub = around(gp.hp_lhs_bound_factor)
    nx0 = int(rng.choice([1, 2, 3, 5, 8, 17, 40]))
    ok, o = ctx.guard('get_hp_x0_lhs_median', gp.get_hp_x0_lhs_median, i, info, nx0, info=inf)
    if not ok:
        return
    x0, bd = np.asarray(o[0]), o[1]
    ctx.count('lhs_bounds')
    rel = 1e-10
    tl = rel * np.maximum(np.abs(blb), 1e-3 * np.abs(bub)) + 1e-300
    tu = rel * np.abs(bub) + 1e-300
    lg = np.concatenate([np.full(sc.dim if k == 'theta' else 1, flags[k]) for k in names])
    tl[lg] = np.maximum(tl[lg], 1e-12)
    tu[lg] = np.maximum(tu[lg], 1e-12)
    ctx.close('box_lb', bd.lb, blb, tl, 'box_lb:' + f, info=inf)
    ctx.close('box_ub', bd.ub, bub, tu, 'box_ub:' + f, info=inf)
    if x0.shape != (nx0, nhp):
        ctx.violation('x0:shape:' + f, dict(got=x0.shape, want=(nx0, nhp)), info=inf)
        return
    ctx.count('x0_points', nx0)
    sl = 1e-9 * np.maximum(np.abs(llb), np.abs(lub)) + 1e-300
    if not (np.all(np.isfinite(x0)) and np.all(x0 >= llb - sl) and np.all(x0 <= lub + sl)):
        ctx.violation('x0:outside_start_range:' + f, dict(x0=x0[:3], lb=llb, ub=lub), info=inf)
    if not (np.all(x0 >= np.asarray(bd.lb) - sl) and np.all(x0 <= np.asarray(bd.ub) + sl)):
        ctx.violation('x0:outside_bounds:' + f, dict(x0=x0[:3], lb=bd.lb, ub=bd.ub), info=inf)
    if nhp == 1:
        ctx.count('one_hp')
        w = llb[0] + (lub[0] - llb[0]) * np.arange(1, nx0 + 1) / (nx0 + 1)
        ctx.close('x0_single', x0[:, 0], w, 1e-9 * max(abs(llb[0]), abs(lub[0])) + 1e-300, 'x0:single', info=inf)
    else:
        # one sample per stratum and coordinate
        wd = lub - llb
        if np.all(wd > 1e-6 * np.maximum(np.abs(lub), np.abs(llb))):
            ctx.count('strat')
            s = np.sort(np.floor((x0 - llb) / wd * nx0 * (1 - 1e-12) + 1e-9).astype(int), axis=0)
            if not np.all(s == np.arange(nx0)[:, None]):
                ctx.violation('x0:not_latin:' + f, dict(strata=s[:, 0]), info=inf)
    o2 = gp.get_hp_x0_lhs_median(i, info, nx0)
    if not (np.array_equal(x0, o2[0]) and np.array_equal(bd.lb, o2[1].lb) and np.array_equal(bd.ub, o2[1].ub)):
        ctx.violation('x0:not_repeatable', None, info=inf)

    # ---- get_hp_bounds
    for cstr in (False, True):
        ii = int(rng.integers(0, n + 1)) if rng.random() < 0.3 else i
        fr = float(rng.choice([0.2, 0.2, 0.05, 0.5, 0.9]))
        kw = dict(range_frac=fr) if fr != 0.2 else {}
        ok, o = ctx.guard('get_hp_bounds', gp.get_hp_bounds, info, cstr, ii, info=inf, **kw)
        if not ok:
            continue
        ctx.count('bounds')
        lb, ub = [], []
        inside = []
        l2 = max(0, ii - gp.hp_median_n_idx)
        for k in names:
            m = sc.dim if k == 'theta' else 1
            a, b = [float(v) for v in rng_of[k]]
            use = cstr and ii > 0 and (k in ('theta', 'var_fgrad') or (k in ('varK', 'var_fval') and ii > gp.hp_const_n_eval + 1))
            if use:
                la, lb_ = np.log10(a), np.log10(b)
                if k == 'theta':
                    c = np.median(np.log10(hist[k][l2:ii]))
                else:
                    c = np.log10(np.median(hist[k][l2:ii]))
                c = min(max(c, la), lb_)
                a, b = 10 ** max(la, c - fr * (lb_ - la)), 10 ** min(lb_, c + fr * (lb_ - la))
            lb += [np.log10(a) if flags[k] else a] * m
            ub += [np.log10(b) if flags[k] else b] * m
        lb, ub = np.array(lb), np.array(ub)
        t1 = np.where(lg, 1e-10, 0) + 1e-10 * np.abs(lb)
        t2 = np.where(lg, 1e-10, 0) + 1e-10 * np.abs(ub)
        for nm, g, w, t in (('min', o[0], lb, t1), ('max', o[1], ub, t2), ('lb', o[2].lb, lb, t1), ('ub', o[2].ub, ub, t2)):
            ctx.close('hp_bounds', g, w, t, 'get_hp_bounds:%s:%s:%d' % (nm, tag, cstr), info=inf)

    # ---- select_hp_optz_x0
    mode = 'hp_best' if rng.random() < 0.6 else 'lhs'
    gp.lkd_optz_start_mtd = mode
    gp.optz_n_x0 = int(rng.integers(1, 7))
    gp.lkd_hp_best_n_eval = int(rng.integers(2, 14))
    calc_cond = sc.weff != 'precon'
    N = gp.optz_n_x0 if mode == 'lhs' else gp.lkd_hp_best_n_eval
    cand, bd = gp.get_hp_x0_lhs_median(i, info, N)
    lk, cd = np.full(N, np.nan), np.full(N, np.nan)
    if mode == 'hp_best':
        if calc_cond and rng.random() < 0.5:
            # make the constraint bind
            gp.cond_max = float(10 ** rng.uniform(0.2, 6))
            gp.cond_max_abs = float(max(gp.cond_max, 10 ** rng.uniform(4, 16)))
        for j in range(N):
            li, good = gp.calc_lkd_all(gp.hp_vec2dataclass(info, cand[j]), calc_cond=calc_cond)
            if good:
                lk[j] = li.ln_lkd
            if calc_cond:
                cd[j] = li.cond
        if not np.any(np.isfinite(lk)):
            ctx.count('all_failed')
            if not calc_cond:       # explicit limitation: the preconditioned matrix always factorizes with the documented nugget
                return
    ok, o = ctx.guard('select_hp_optz_x0:' + mode, gp.select_hp_optz_x0, i, info, info=inf)
    if not ok:
        return
    xs = np.asarray(o[0])
    if not (np.array_equal(o[1].lb, bd.lb) and np.array_equal(o[1].ub, bd.ub)):
        ctx.violation('select:bounds:' + mode, None, info=inf)
    if not (np.isfinite(o[2]) and o[2] >= 0):
        ctx.violation('select:time', dict(t=o[2]), info=inf)
    if mode == 'lhs':
        ctx.count('select_lhs')
        if not (xs.shape == cand.shape and np.array_equal(xs, cand)):
            ctx.violation('select:lhs:' + f, dict(got=xs.shape, want=cand.shape), info=inf)
    else:
        ctx.count('select_best')
        if xs.shape != (1, nhp) or not np.any(np.all(cand == xs, axis=1)):
            ctx.violation('select:not_a_candidate:' + f, dict(got=xs), info=inf)
            return
        j = int(np.argwhere(np.all(cand == xs, axis=1))[0, 0])
        if calc_cond:
            ctx.count('best_cond')
            good = np.isfinite(lk) & (cd <= 1.2 * gp.cond_max)
        else:
            good = np.isfinite(lk)
        if good.any():
            mx = np.nanmax(lk[good])
            # acceptable up to rounding in either comparison
            if not (np.isfinite(lk[j]) and (not calc_cond or cd[j] <= 1.2 * gp.cond_max * (1 + 1e-9)) and lk[j] >= mx - 1e-9 * (1 + abs(mx))):
                ctx.violation('select:hp_best:' + f, dict(chosen=j, lkd=lk, cond=cd, cond_max=gp.cond_max), info=inf)
        else:
            ctx.count('best_fallback')
            if np.any(~np.isfinite(lk)):
                ctx.count('best_fallback_with_failed')
            if not (np.isfinite(cd[j]) and cd[j] <= np.nanmin(cd) * (1 + 1e-9)):
                ctx.violation('select:hp_best_fallback:' + f, dict(chosen=j, cond=cd, cond_max=gp.cond_max), info=inf)
    for k, v in HISTN.items():
        if not np.array_equal(before[k], getattr(gp, v), equal_nan=True):
            ctx.violation('history_changed:' + k, None, info=inf)
    ctx.nontrivial((sc.kernel, sc.weff, sc.use_grad, tag, tuple(bool(x) for x in lg), mode, min(hi - lo, 4), nhp))
    ctx.sample(dict(config=inf, hyperparameters=names, i=i, median_rows=[lo, hi], box_lb=bd.lb, box_ub=bd.ub, mode=mode, x0=xs[:2]))

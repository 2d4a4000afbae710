"""C10: hyperparameter optimization keeps its contract (monitor on the optimizer's call boundary)."""
import sys
import numpy as np
import scipy.optimize
from .. import gen, ref
from ..lk import Lk
from .c05 import names
from .c08 import to_vec, flags
from .c09 import ref_cond
from .c13 import NAMES

E = ref.EPS
RULE = ('case = random data, noise, kernel, method, history of hyperparameters and optimization options; set_hpara("optz", i) is run with every call of the optimizer recorded '
        '(start, bounds, constraint, scale of the data, result); the final hyperparameters are judged with the 80-bit likelihood, an independent condition number, the closed forms and '
        'the reference conditional; the run is repeated on a fresh object; class = (kernel, method, use_grad, noise, optimizer options, outcome)')
ASSUMPTIONS = ['likelihoods are compared between hyperparameters that belong to the same scale of the data',
               'starting points that violate the condition-number constraint are not compared (they may have a higher likelihood)',
               'i_optz >= 1 with a filled history whenever n_eval > hp_const_n_eval, as documented by the use of previous iterations']


def shards(tier):
    k, n = (8, 130) if tier == 'quick' else (24, 900)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'optz_runs': 500, 'bounds': 200, 'constraint': 200, 'cmp:cond': 200, 'cmp:beta': 200, 'cmp:varK': 40, 'lkd_x0': 250, 'lkd_x': 250, 'cmp:mu': 200, 'rows': 200,
            'repeats': 250, 'init': 90, 'improved': 200, 'at_bound': 40, 'con_ok': 120, 'info': 200, 'region': 200, 'cmp:max_init_cond': 80, 'n_cond2big': 80, 'cho_fail': 5, 'many_points': 4}


class Rec:
    def __init__(self):
        self.calls = []
        self.gp = None


REC = Rec()
ORIG = scipy.optimize.minimize


def minimize(fun, x0, *a, **kw):
    gp = REC.gp
    c = dict(x0=np.array(x0, copy=True), bounds=kw.get('bounds'), ub=None, nev=0)
    c['method'] = a[1] if len(a) > 1 else kw.get('method')
    c['options'], c['tol'] = dict(kw.get('options') or {}), kw.get('tol')
    cons = kw.get('constraints')
    if cons is not None and hasattr(cons, 'ub'):
        c['ub'] = np.array(cons.ub, float)
    elif isinstance(cons, (list, tuple)) and len(cons):
        c['ub'] = np.array(cons[0].ub, float) if hasattr(cons[0], 'ub') else None
    try:
        c['scale'] = np.array(gp.DataScl.xvec_scale, float) if gp.b_use_data_scl else None
    except AttributeError:
        c['scale'] = None

    def f(x, *b):
        c['nev'] += 1
        return fun(x, *b)
    r = ORIG(f, x0, *a, **kw)
    c['x'], c['fun'], c['success'], c['nit'] = np.array(r.x, copy=True), float(r.fun), bool(r.success), r.nit
    REC.calls.append(c)
    return r


def hook():
    """replace every reference to scipy's minimize held by the package"""
    n = 0
    for nm, m in list(sys.modules.items()):
        if nm.startswith('gpgradpy') and m is not None:
            for k, v in list(vars(m).items()):
                if v is ORIG:
                    setattr(m, k, minimize)
                    n += 1
    scipy.optimize.minimize = minimize
    return n


def run(ctx):
    import gpgradpy.src.optz.OptzLkd  # noqa
    hook()
    for i, rng in ctx.cases(ctx.shard['n']):
        if i % 5 == 4:
            init_case(ctx, rng)
        else:
            case(ctx, rng)


def history(rng, gp, sc, m):
    """rows of plausible earlier hyperparameters"""
    rows = []
    for r in range(m):
        hp = dict(sc.hp)
        hp['theta'] = sc.hp['theta'] * 10.0 ** rng.uniform(-1, 1, sc.dim)
        hp['varK'] = float(sc.hp['varK'] * 10 ** rng.uniform(-1, 1))
        for k in ('var_fval', 'var_fgrad'):
            if hp[k] is not None:
                hp[k] = float(hp[k] * 10 ** rng.uniform(-1, 1))
        rows.append(hp)
    return rows


def options(rng, sc):
    o = {}
    o['optz_log_hp_theta'] = bool(rng.random() < 0.8)
    o['optz_log_hp_var'] = bool(rng.random() < 0.8)
    o['optz_log_hp_kernel'] = bool(rng.random() < 0.8)
    o['b_optz_hp_kernel'] = bool(rng.random() < 0.8)
    o['lkd_optz_start_mtd'] = str(rng.choice(['hp_best', 'lhs']))
    o['lkd_hp_best_n_eval'] = int(rng.integers(2, 12))
    o['optz_n_x0'] = int(rng.integers(1, 4))
    o['optz_iter_max'] = int(rng.choice([2, 5, 15, 40, 100]))
    o['lkd_use_adj_mtd'] = bool(rng.random() < 0.5)
    o['hp_median_n_idx'] = int(rng.integers(1, 6))
    if rng.random() < 0.4:
        o['hp_box_bound_factor'] = float(10 ** rng.uniform(1, 5))
        o['hp_lhs_bound_factor'] = float(10 ** rng.uniform(0.3, np.log10(o['hp_box_bound_factor'])))
    if rng.random() < 0.25:
        o['hp_theta_range'] = [float(np.min(sc.hp['theta']) * 10 ** rng.uniform(-2, 0.2)), float(np.max(sc.hp['theta']) * 10 ** rng.uniform(0.3, 2))]
    if rng.random() < 0.1:
        o['optz_mtd'] = 'trust-constr'
        o['optz_iter_max'] = min(o['optz_iter_max'], 15)
    if rng.random() < 0.3:
        o['optz_tol_obj'] = float(10 ** rng.uniform(-13, -4))
        o['optz_tol_x'] = float(10 ** rng.uniform(-13, -4))
    if rng.random() < 0.15:
        o['lkd_varK_pnlt_use'] = True
    if 'rescale' in sc.weff:
        o['cond_vreq_max_iter'] = int(rng.integers(1, 4))
    return o


def build(sc, o, rows, i):
    gp = gen.mk_gp(sc)
    for k, v in o.items():
        setattr(gp, k, v)
    gp.init_optz_surr(i + 2)
    gen.put_data(gp, sc)
    for r, hp in enumerate(rows):
        gp.store_new_para_surr(r, gen.mk_hp(gp, hp))
    return gp


def case(ctx, rng):
    big = rng.random() < 0.02
    ctx.count('many_points', big)
    sc = gen.gen(rng, nmax=60 if big else 7, nmin=24 if big else 2, dmax=3, ndata_max=120 if big else 24, eta_const=0.95, allow_dup=False, moderate=True, wcs=['precon', 'precon'] + gen.WC_GRAD,
                 noises=['zero', 'zero', 'known', 'hetero', 'unk_f', 'unk_g', 'unk', 'f_only', 'g_only'], cond_targets=[1e10, 1e8, 1e6])
    o = options(rng, sc)
    u = rng.random()
    if u < 0.25:
        o['cond_max'] = sc.opts['cond_max_target'] * float(10 ** rng.uniform(-3, 0))
    elif u < 0.4:
        o['cond_max'] = sc.opts['cond_max_target'] * float(10 ** rng.uniform(0, 2))
    if sc.weff != 'precon' and rng.random() < 0.4:     # hardly any nugget: starting points beyond cond_max_abs
        sc.opts.update(cond_eta_set_mtd='dflt_eta', cond_eta_dflt=1e-13)
        o['cond_max'] = float(10 ** rng.uniform(3, 7))
        o['cond_max_abs'] = o['cond_max'] * float(10 ** rng.uniform(0.1, 2))
    i = int(rng.integers(1, 6))
    rows = history(rng, None, sc, i)
    inf = sc.short() + '/' + o['lkd_optz_start_mtd'] + '/' + o.get('optz_mtd', 'SLSQP')
    gp = build(sc, o, rows, i)
    out = once(ctx, gp, i, inf)
    if out is None:
        return
    judge(ctx, rng, gp, sc, o, i, out, inf, rows)
    # the same data and history again
    q = build(sc, o, rows, i)
    out2 = once(ctx, q, i, inf)
    if out2 is not None:
        repeat(ctx, gp, q, out, out2, i, inf, 'fresh')
    if rng.random() < 0.4:
        gen.put_data(gp, sc)
        out3 = once(ctx, gp, i, inf)
        if out3 is not None:
            repeat(ctx, q, gp, out, out3, i, inf, 'again')


def once(ctx, gp, i, inf):
    REC.gp, REC.calls = gp, []
    ok, _ = ctx.guard('optz', gp.set_hpara, 'optz', i, info=inf)
    if not ok:
        return None
    ctx.count('optz_runs')
    return list(REC.calls)


def hpd(v):
    return dict(beta=np.array(v.beta, float), theta=np.array(v.theta, float), kernel=v.kernel, varK=float(v.varK), var_fval=v.var_fval, var_fgrad=v.var_fgrad)


def repeat(ctx, a, b, ca, cb, i, inf, how):
    ctx.count('repeats')
    x, y = hpd(a.hp_vals), hpd(b.hp_vals)
    for k in x:
        if (x[k] is None) != (y[k] is None) or (x[k] is not None and not np.array_equal(np.ravel(x[k]), np.ravel(y[k]))):
            ctx.violation('repeat:%s:%s' % (how, k), dict(a=x[k], b=y[k]), info=inf)
            return
    for nm in NAMES:
        if nm.startswith('time'):
            continue
        if not np.array_equal(np.asarray(getattr(a, nm)[i], float), np.asarray(getattr(b, nm)[i], float), equal_nan=True):
            ctx.violation('repeat:%s:row:%s' % (how, nm), None, info=inf)
            return


def fromvec(sc, vec, bl, nm, hp):
    nat = np.where(bl, 10.0 ** vec, vec)
    h = dict(hp)
    h['theta'] = nat[:sc.dim]
    for k, v in zip(nm[sc.dim:], nat[sc.dim:]):
        h[k] = float(v)
    return h


def judge(ctx, rng, gp, sc, o, i, calls, inf, rows):
    optk = o['b_optz_hp_kernel'] and sc.kernel == 'RatQu'
    nm = names(sc, optk)
    bl = flags(gp, sc, optk)
    hp = hpd(gp.hp_vals)
    tag = '%s:%s:%s' % ('noisy' if (sc.noise not in ('zero', 'tiny')) else 'clean', sc.weff, 'grad' if sc.use_grad else 'nograd')
    if not calls:
        ctx.violation('optimizer_not_called', None, info=inf)
        return
    if hp['kernel'] is not None and sc.kernel == 'RatQu' and not optk and float(np.ravel(hp['kernel'])[0]) != float(np.ravel(gp.hp_kernel_default)[0]):
        ctx.violation('kernel_hp_changed', dict(got=hp['kernel']), info=inf)
    if (hp['var_fval'] is not None) != sc.unk_f or (hp['var_fgrad'] is not None) != sc.unk_g:
        ctx.violation('noise_hp', None, info=inf)
        return
    scale = np.array(gp.DataScl.xvec_scale, float) if sc.weff in gen.SCALED else None
    vec = to_vec(gp, sc, hp, optk)
    vec = np.where(bl, np.log10(vec), vec)
    # bounds
    b = calls[0]['bounds']
    lb, ub = np.asarray(b.lb, float), np.asarray(b.ub, float)
    ctx.count('bounds')
    tolb = 1e-9 * (1 + np.abs(vec))
    if vec.shape != lb.shape or np.any(vec < lb - tolb) or np.any(vec > ub + tolb):
        ctx.violation('outside_bounds:' + tag, dict(vec=vec, lb=lb, ub=ub), info=inf)
    if np.any(np.abs(vec - lb) < 1e-6) or np.any(np.abs(vec - ub) < 1e-6):
        ctx.count('at_bound')
    region(ctx, gp, sc, o, i, rows, nm, bl, calls, tag, inf)
    # the optimizer runs as configured
    keys = dict(maxiter=gp.optz_iter_max, ftol=gp.optz_tol_obj) if gp.optz_mtd == 'SLSQP' else dict(maxiter=gp.optz_iter_max, xtol=gp.optz_tol_x, gtol=gp.optz_tol_obj)
    for c in calls:
        ctx.count('configured')
        bad = [k for k, v in keys.items() if c['options'].get(k, c['tol'] if k != 'maxiter' else None) != v]
        if bad or str(c['method']).lower() != gp.optz_mtd.lower():
            ctx.violation('configured:%s:%s' % (gp.optz_mtd, bad[0] if bad else 'method'), dict(method=c['method'], got=c['options'], want=keys), info=inf)
            break
    # constraint handed over
    if sc.weff != 'precon':
        for c in calls:
            if c['ub'] is None or float(np.ravel(c['ub'])[0]) != gp.cond_max:
                ctx.violation('constraint_ub:' + tag, dict(ub=c['ub'], cond_max=gp.cond_max), info=inf)
                break
            ctx.count('constraint')
    # condition number
    lk = Lk(sc, gp, hp, optk, xscale=scale)
    good = float(gp.hp_optz_con_good[i])
    stored = float(gp.Kcov_cond_all[i])
    r = ref_cond(lk.cond_mat().astype(float), None, 2)
    sat = None
    if r is not None:
        ctx.close('cond', stored, r['c'], r['tc'] + 1e-9 * r['c'], 'stored_cond:' + tag, info=inf)
        if sc.weff != 'precon':
            sat = r['c'] < 1.01 * gp.cond_max + r['tc']
            ctx.count('con_ok' if sat else 'con_bad')
            if not sat and good > 0:
                ctx.violation('constraint_not_reported:' + tag, dict(cond=r['c'], cond_max=gp.cond_max, con_good=good), info=inf)
            if r['c'] < 1.009 * gp.cond_max - r['tc'] and good == 0:
                ctx.violation('constraint_reported_bad:' + tag, dict(cond=r['c'], cond_max=gp.cond_max), info=inf)
        elif good != 1:
            ctx.violation('precon:con_good', dict(got=good), info=inf)
    # closed forms and likelihood
    pn = (gp.lkd_varK_pnlt_c1, gp.lkd_varK_pnlt_c2, gp.lkd_varK_pnlt_lb_var) if gp.lkd_varK_pnlt_use else None
    try:
        w, t = lk.with_tol(pnlt=pn)
    except ref.NotPD:
        ctx.count('skipped_singular')
        return
    if not float(t['ln_lkd']) < 1e-4 * (lk.n + abs(float(w['ln_lkd']))):
        ctx.count('skipped_illcond')
        return
    ctx.close('beta', np.ravel(hp['beta']), np.ravel(w['beta']), t['beta'], 'beta:' + tag, info=inf)
    if not lk.noisy:
        ctx.close('varK', hp['varK'], w['varK'], t['varK'], 'varK:' + tag, info=inf)
    fin = float(w['ln_lkd'])
    for c in calls:
        if c['scale'] is not None and scale is not None and not np.allclose(c['scale'], scale, rtol=1e-9):
            ctx.count('other_scale')
            continue
        for what in ('x0', 'x'):
            h = fromvec(sc, c[what], bl, nm, hp)
            if h['varK'] is None or np.isnan(h['varK']):
                h['varK'] = 1.0
            l0 = Lk(sc, gp, h, optk, xscale=scale)
            try:
                w0, t0 = l0.with_tol(pnlt=pn, ntry=2)
            except ref.NotPD:
                ctx.count('start_singular')
                continue
            if not float(t0['ln_lkd']) < 1e-4 * (lk.n + abs(float(w0['ln_lkd']))):
                ctx.count('start_illcond')
                continue
            if sc.weff != 'precon':
                r0 = ref_cond(l0.cond_mat().astype(float), None, 2)
                if r0 is None or r0['c'] + r0['tc'] > gp.cond_max * (1.0 if what == 'x0' else 1.009):
                    ctx.count('start_infeasible')
                    continue
            ctx.count('lkd_' + what)
            gain = fin - float(w0['ln_lkd'])
            lim = float(t['ln_lkd']) + float(t0['ln_lkd']) + 1e-9 * abs(fin)
            if gain < -lim:
                ctx.violation('worse_than_%s:%s' % ('start' if what == 'x0' else 'result', tag), dict(final=fin, other=float(w0['ln_lkd']), tol=lim, nit=int(c['nit']), success=c['success'], n=len(calls),
                                                                                   vec=vec, x0=c['x0'], x=c['x']), info=inf)
            elif what == 'x0' and gain > lim:
                ctx.count('improved')
    # the model predicts with these hyperparameters
    if gp.KernEta_chofac is not None:
        P = gen.eval_points(rng, sc, 2)
        ok, p = ctx.guard('eval_model', gp.eval_model, P, info=inf)
        if ok:
            M, wk = gen.ref_model(sc, float(gp.etaK_eval), hp=hp, xscale=scale)
            try:
                q, tq = gen.ref_predict(M, wk, P, grad=False)
            except ref.NotPD:
                tq = None
            if tq is not None and float(np.max(tq['sig2'])) < 1e-3 * float(M.varK / wk['osc'] ** 2):
                ctx.close('mu', p[0], q['mu'], tq['mu'], 'predict_mu:' + tag, info=inf)
                ctx.close('sig2', p[1] ** 2, q['sig2'], tq['sig2'], 'predict_sig:' + tag, info=inf)
    # what is recorded about the optimization (the one made with the scaling that was kept)
    batch = [c for c in calls if c['scale'] is None or scale is None or np.allclose(c['scale'], scale, rtol=1e-12)]
    if not batch:
        ctx.violation('scale_without_optimization:' + tag, dict(scale=scale), info=inf)
    else:
        ctx.count('info')
        nit = np.array([c['nit'] for c in batch], float)
        for k, g, want in (('success', gp.hp_optz_success[i], np.mean([c['success'] for c in batch])), ('iter_mean', gp.hp_optz_iter_mean[i], np.mean(nit)), ('iter_max', gp.hp_optz_iter_max[i], np.max(nit))):
            if not abs(float(g) - want) <= 1e-12 * (1 + abs(want)):
                ctx.violation('info:%s' % k, dict(got=float(g), want=float(want), runs=len(batch)), info=inf)
        if not (0 <= good <= 1 and abs(good * len(batch) - round(good * len(batch))) < 1e-9):
            ctx.violation('info:con_good', dict(got=good, runs=len(batch)), info=inf)
        if sc.weff == 'precon':
            if not (np.isnan(gp.optz_max_init_cond_all[i]) and gp.optz_n_cond2big_all[i] == 0 and gp.optz_n_cho_fail_all[i] == 0):
                ctx.violation('info:precon_initial_cond', dict(max=gp.optz_max_init_cond_all[i], big=gp.optz_n_cond2big_all[i]), info=inf)
        else:
            init_conds(ctx, gp, sc, i, batch, bl, nm, hp, optk, scale, tag, inf)
    # history row
    for k, a in (('theta', 'hp_theta_all'), ('beta', 'hp_beta_all'), ('varK', 'hp_varK_all'), ('var_fval', 'hp_var_fval_all'), ('var_fgrad', 'hp_var_fgrad_all')):
        g = np.ravel(getattr(gp, a)[i])
        want = np.nan if hp[k] is None else hp[k]
        if not np.array_equal(g, np.ravel(np.asarray(want, float)), equal_nan=True):
            ctx.violation('row:' + k, dict(got=g, want=want), info=inf)
    ctx.count('rows')
    ctx.nontrivial(sc.cls() + (o['lkd_optz_start_mtd'], o.get('optz_mtd', 'SLSQP'), sat, gp.hp_optz_success[i] > 0))
    ctx.sample(dict(scenario=inf, ln_lkd=fin, theta=hp['theta'], cond=stored, calls=len(calls), evals=sum(c['nev'] for c in calls)))


def region(ctx, gp, sc, o, i, rows, nm, bl, calls, tag, inf):
    """what reaches the optimizer: box around the median of the recent history, number and place of the starts"""
    recent = rows[max(0, i - gp.hp_median_n_idx):i]
    rg = dict(theta=gp.hp_theta_range, kernel=gp.hp_kernel_range, varK=gp.hp_varK_range, var_fval=gp.hp_var_fval_range, var_fgrad=gp.hp_var_fgrad_range)
    med, lo, hi = [], [], []
    for k in ['theta'] + [x for x in nm[sc.dim:]]:
        v = np.median([np.ravel(np.asarray(r[k], float)) for r in recent], axis=0)
        med += list(np.clip(v, *rg[k]))
        lo += [rg[k][0]] * v.size
        hi += [rg[k][1]] * v.size
    med, lo, hi = np.array(med), np.array(lo), np.array(hi)

    def box(fac):
        a, b = np.maximum(med / fac, lo), np.minimum(med * fac, hi)
        return np.where(bl, np.log10(a), a), np.where(bl, np.log10(b), b)
    ctx.count('region')
    lb, ub = box(gp.hp_box_bound_factor)
    sl, su = box(gp.hp_lhs_bound_factor)
    for c in calls:
        b = c['bounds']
        gl, gu = np.asarray(b.lb, float), np.asarray(b.ub, float)
        if gl.shape != lb.shape or not np.allclose(gl, lb, rtol=1e-9, atol=1e-300) or not np.allclose(gu, ub, rtol=1e-9, atol=1e-300):
            ctx.violation('search_box:' + tag, dict(lb=gl, want_lb=lb, ub=gu, want_ub=ub), info=inf)
            return
    n = o['optz_n_x0'] if o['lkd_optz_start_mtd'] == 'lhs' else 1
    if (len(calls) != n) if 'rescale' not in sc.weff else (len(calls) < n):
        ctx.violation('number_of_starts:' + tag, dict(got=len(calls), want=n), info=inf)
        return
    tol = 1e-9 * np.maximum(np.abs(sl), np.abs(su))
    for c in calls[:n]:
        if np.any(c['x0'] < sl - tol) or np.any(c['x0'] > su + tol):
            ctx.violation('start_outside_sampling_region:' + tag, dict(x0=c['x0'], lb=sl, ub=su), info=inf)
            return


def init_conds(ctx, gp, sc, i, batch, bl, nm, hp, optk, scale, tag, inf):
    cs, ts, fails = [], [], 0
    for c in batch:
        h = fromvec(sc, c['x0'], bl, nm, hp)
        if h['varK'] is None or np.isnan(h['varK']):
            h['varK'] = 1.0
        try:
            r = ref_cond(Lk(sc, gp, h, optk, xscale=scale).cond_mat().astype(float), None, 2)
        except ref.NotPD:
            r = None
        if r is None or abs(r['c'] - gp.cond_max_abs) <= 4 * r['tc'] + 1e-6 * r['c'] or not r['tc'] < 0.01 * r['c']:
            return
        fails += r['c'] > gp.cond_max_abs       # the factorization is documented not to be attempted
        cs.append(r['c'])
        ts.append(r['tc'] + 1e-9 * r['c'])
    cs, ts = np.array(cs), np.array(ts)
    k = int(np.argmax(cs))
    ctx.close('max_init_cond', float(gp.optz_max_init_cond_all[i]), cs[k], np.max(ts), 'info:max_init_cond:' + tag, info=inf)
    if np.all(np.abs(cs - gp.cond_max) > ts):
        ctx.count('n_cond2big')
        if gp.optz_n_cond2big_all[i] != np.sum(cs > gp.cond_max):
            ctx.violation('info:n_cond2big:' + tag, dict(got=gp.optz_n_cond2big_all[i], want=int(np.sum(cs > gp.cond_max))), info=inf)
    ctx.count('cho_fail' if fails else 'no_cho_fail')
    if gp.optz_n_cho_fail_all[i] != fails:
        ctx.violation('info:n_cho_fail:' + tag, dict(got=gp.optz_n_cho_fail_all[i], want=int(fails)), info=inf)


def init_case(ctx, rng):
    """n_eval <= hp_const_n_eval: documented initial hyperparameters"""
    sc = gen.gen(rng, nmax=6, dmax=4, ndata_max=24, eta_const=0.95, allow_dup=False, moderate=True,
                 noises=['zero', 'zero', 'known', 'hetero', 'unk_f', 'unk_g', 'unk', 'f_only', 'g_only'], cond_targets=[1e10, 1e8, 1e6])
    gp = gen.mk_gp(sc)
    inf = sc.short() + '/init'
    gp.init_optz_surr(3)
    gp.hp_const_n_eval = sc.n + int(rng.integers(0, 3))
    if rng.random() < 0.7:
        gp.hp_theta_init = float(10 ** rng.uniform(-3, 1))
        gp.hp_varK_init = float(10 ** rng.uniform(-1, 2))
        gp.hp_var_fval_init = float(10 ** rng.uniform(-4, 0))
        gp.hp_var_fgrad_init = float(10 ** rng.uniform(-4, 0))
    gen.put_data(gp, sc)
    i = int(rng.integers(0, 3))
    calls = once(ctx, gp, i, inf)
    if calls is None:
        return
    ctx.count('init')
    if calls:
        ctx.violation('init:optimizer_called', None, info=inf)
    hp = hpd(gp.hp_vals)
    f = gen.working(sc)['f'].astype(float)
    want = dict(theta=np.full(sc.dim, gp.hp_theta_init), varK=gp.hp_varK_init, var_fval=gp.hp_var_fval_init if sc.unk_f else None,
                var_fgrad=gp.hp_var_fgrad_init if sc.unk_g else None)
    for k, v in want.items():
        if (hp[k] is None) != (v is None) or (v is not None and not np.array_equal(np.ravel(hp[k]), np.ravel(v))):
            ctx.violation('init:' + k, dict(got=hp[k], want=v), info=inf)
    if sc.kernel == 'RatQu' and float(np.ravel(hp['kernel'])[0]) != 2.0:
        ctx.violation('init:kernel', dict(got=hp['kernel']), info=inf)
    ctx.close('init_beta', np.ravel(hp['beta']), np.array([np.mean(f)]), 100 * E * np.max(np.abs(f)) + 100 * E * np.max(np.abs(sc.f)) * float(gen.working(sc)['osc']), 'init:beta', info=inf)
    lk = Lk(sc, gp, hp, True)
    r = ref_cond(lk.cond_mat().astype(float), None, 2)
    if r is not None:
        ctx.close('init_cond', float(gp.Kcov_cond_all[i]), r['c'], r['tc'] + 1e-9 * r['c'], 'init:cond', info=inf)
    if not np.array_equal(gp.hp_theta_all[i], want['theta']) or gp.hp_varK_all[i] != gp.hp_varK_init:
        ctx.violation('init:row', None, info=inf)
    ctx.nontrivial(sc.cls() + ('init',))

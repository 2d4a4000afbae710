"""C13: history of hyperparameters: store, restore, export, save, load (stateful shadow model)."""
import os
import numpy as np
from .. import gen, ref

E = ref.EPS
RULE = ('case = random surrogate configuration and a random sequence of set_data, store_new_para_surr, set_hpara(optz/set/stored/current), eval_model, export (dictionary and npz), '
        'load into another object, finish_optz_surr; a shadow copy of every *_all array is compared bit for bit after every operation; class = (kernel, method, use_grad, noise, operation, rows)')
ASSUMPTIONS = ['set_hpara("stored") after loading is compared with the reference conditional at the stored scale of the data (tolerance from its conditioning)']

GIVEN = ['hp_beta_all', 'hp_varK_all', 'hp_var_fval_all', 'hp_var_fgrad_all', 'hp_kernel_all', 'hp_theta_all', 'Kcov_cond_all', 'Kcov_cond_at_max_all',
         'hp_optz_success', 'hp_optz_iter_mean', 'hp_optz_iter_max', 'hp_optz_con_good', 'optz_n_cho_fail_all', 'optz_n_cond2big_all', 'optz_max_init_cond_all',
         'time_pick_hp0_all', 'time_hp_optz_all', 'time_chofac_all']
DERIVED = ['min_nugget_all', 'eta_Kbase_all', 'eta_Kgrad_all', 'vmin_init_all', 'vmin_req_grad_all', 'xvec_rescaling_all', 'var_fval', 'varK_var_fval']
NAMES = GIVEN + DERIVED
OPT = ['hp_optz_success', 'hp_optz_iter_mean', 'hp_optz_iter_max', 'hp_optz_con_good']
OPT2 = {'optz_n_cho_fail_all': 'optz_n_cho_fail', 'optz_n_cond2big_all': 'optz_n_cond2big', 'optz_max_init_cond_all': 'optz_max_init_cond'}


def shards(tier):
    k, n = (8, 500) if tier == 'quick' else (24, 2500)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'op:store': 1500, 'op:optz': 500, 'op:optz_full': 50, 'op:stored': 700, 'op:export_dict': 500, 'op:export_npz': 500, 'op:load': 1500, 'op:finish': 500,
            'op:shared_file': 350, 'op:backup': 130, 'loaded_predict': 400, 'cmp:loaded_mu': 400, 'cmp:stored_scale': 400, 'aniso_rows': 350, 'rows_checked': 1000000, 'rows_replaced': 500, 'op:absent': 100, 'long_history': 30}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and (np.array_equal(a, b, equal_nan=True))


def vmin(X):
    if X.shape[0] < 2:
        return None
    D = np.sqrt(((X[:, None].astype(np.longdouble) - X[None]) ** 2).sum(-1))
    return float(D[np.triu_indices(X.shape[0], 1)].min())


def run(ctx):
    for i, rng in ctx.cases(ctx.shard['n']):
        case(ctx, rng)


class Hist:
    """shadow of one object"""

    def __init__(self, gp, n):
        self.n = n
        d = gp.dim
        sh = {k: (n,) for k in NAMES}
        sh.update(hp_beta_all=(n, 1), hp_theta_all=(n, d), xvec_rescaling_all=(n, d))
        self.a = {k: np.full(s, np.nan) for k, s in sh.items()}
        self.a['Kcov_cond_at_max_all'] = np.zeros(n, bool)
        self.sc = [None] * n
        self.loose = set()      # (name,row) not specified


def check(ctx, gp, h, op, inf):
    ok = True
    for k in NAMES:
        got = getattr(gp, k)
        want = h.a[k]
        if np.shape(got) != want.shape:
            ctx.violation(f'{op}:shape:{k}', dict(got=np.shape(got), want=want.shape), info=inf)
            ok = False
            continue
        ctx.count('rows_checked', want.shape[0])
        for r in range(want.shape[0]):
            if (k, r) in h.loose:
                h.a[k][r] = got[r]
                h.loose.discard((k, r))
                continue
            if not np.array_equal(np.asarray(got[r], float), np.asarray(want[r], float), equal_nan=True):
                ctx.violation(f'{op}:{k}', dict(row=r, got=got[r], want=want[r]), info=inf)
                ok = False
                break
    return ok


def case(ctx, rng):
    dim = int(rng.integers(1, 5 if rng.random() < 0.93 else 12))
    ug = bool(rng.random() < 0.7)
    wc = str(rng.choice(gen.WC_GRAD)) if ug else str(rng.choice(['base', 'precon']))
    kern = str(rng.choice(gen.KERNELS))
    noise = str(rng.choice(['zero', 'zero', 'known', 'hetero', 'unk_f', 'unk_g', 'unk', 'f_only', 'g_only']))
    if not ug and noise == 'unk_g':
        noise = 'unk_f'
    opts = dict(cond_max_target=float(rng.choice([1e10, 1e8, 1e6])))
    opts['cond_max'] = opts['cond_max_target'] * float(rng.choice([1, 1, 10]))
    opts['cond_eta_is_const'] = wc != 'rescale_eta_vary'
    opts['cond_eta_set_mtd'] = str(rng.choice(['Kbase_eta', 'Kbase_eta_w_dim']))
    u = rng.random()
    nmax = int(rng.integers(2, 6)) if u < 0.9 else int(rng.integers(2, 25)) if u < 0.98 else int(rng.integers(25, 300))
    ctx.count('long_history', nmax > 60)

    def data(nmin=1):
        sc = gen.gen(rng, kernels=[kern], use_grad=ug, wcs=[wc], noises=[noise], dmin=dim, dmax=dim, nmax=6, nmin=nmin, opts=opts, masks=['none', 'some', 'all'], eta_const=1.0,
                     allow_dup=False, alpha_types=('float', 'float', 'array'), moderate=True)
        sc.wc = wc
        return sc
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    base = 'hist%d' % int(rng.integers(1000))
    name = str(rng.choice(['obj_', 'con1_', '', 'a_b']))

    def new(n, nm=None, path=None):
        gp = GP(dim, ug, kern, wc, path_data_surr=path or base, surr_name=name if nm is None else nm)
        for k, v in opts.items():
            setattr(gp, k, v)
        if n is not None:
            gp.init_optz_surr(n)
        return gp
    inf = '%s/%s/grad=%d/d%d/%s' % (kern, wc, ug, dim, noise)
    gp = new(nmax)
    h = Hist(gp, nmax)
    if not check(ctx, gp, h, 'init', inf):
        return
    sc = data()
    gen.put_data(gp, sc)
    full = rng.random() < 0.05
    nops = int(rng.integers(4, 12))
    files = []
    if full:
        sc = data(nmin=2)
        gen.put_data(gp, sc)
        if not store(ctx, rng, gp, h, sc, nmax, inf, i=0) or not rows_ok(ctx, gp, h, 'store', inf):
            return
        gen.put_data(gp, sc)
    for step in range(nops):
        op = 'optz' if full and step == 0 else str(rng.choice(['data', 'store', 'store', 'store', 'optz', 'set', 'stored', 'stored', 'eval', 'export_dict', 'export_npz', 'current']))
        rows = [r for r in range(nmax) if h.sc[r] is not None]
        if op == 'data':
            sc = data()
            ok, _ = ctx.guard('set_data', gen.put_data, gp, sc, info=inf)
            if not ok:
                return
        elif op == 'store':
            if not store(ctx, rng, gp, h, sc, nmax, inf):
                return
            if not rows_ok(ctx, gp, h, 'store', inf):
                return
        elif op == 'optz':
            i = 1 if full and step == 0 else int(rng.integers(nmax))
            do_full = full and i > 0 and h.sc[i - 1] is not None and all(not np.isnan(h.a['hp_theta_all'][r]).any() for r in range(max(0, i - 5), i)) and sc.n >= 2
            if gp.n_eval > gp.hp_const_n_eval and not do_full:
                gp.hp_const_n_eval = gp.n_eval
            if do_full:
                gp.hp_const_n_eval = 1
                gp.optz_iter_max = 4
                gp.lkd_hp_best_n_eval = 6
                gp.optz_n_x0 = 2
                gp.lkd_optz_start_mtd = str(rng.choice(['hp_best', 'lhs']))
            if not optz(ctx, gp, h, sc, i, inf, do_full):
                return
        elif op == 'set':
            ok, _ = ctx.guard('set', gp.set_hpara, 'set', int(rng.integers(nmax)), gen.mk_hp(gp, sc.hp), info=inf)
            if not ok:
                return
        elif op == 'current':
            if getattr(gp, 'hp_vals', None) is None or not compat(gp, sc):
                continue
            ok, _ = ctx.guard('current', gp.set_hpara, 'current', 1, info=inf)
            if not ok:
                return
        elif op == 'stored':
            if not rows:
                continue
            i = int(rng.choice(rows))
            if not stored(ctx, gp, h, sc, i, inf):
                return
        elif op == 'eval':
            ok, _ = ctx.guard('set', gp.set_hpara, 'set', 0, gen.mk_hp(gp, sc.hp), info=inf)
            if not ok:
                return
            if gp.KernEta_chofac is not None:
                ctx.guard('eval_model', gp.eval_model, gen.eval_points(rng, sc, 2), calc_grad=True, info=inf)
        elif op == 'export_dict':
            ok, d = ctx.guard('export', gp.export_data_surr, save2file=False, info=inf)
            if not ok or not cmp_dict(ctx, d, name, h, 'export_dict', inf):
                return
            load(ctx, rng, new, h, {k: np.array(v, copy=True) for k, v in d.items()}, nmax, inf, gp, sc)
        elif op == 'export_npz':
            old = open(base + '.npz', 'rb').read() if os.path.exists(base + '.npz') else None
            ok, d = ctx.guard('export', gp.export_data_surr, info=inf)
            if not ok or not cmp_dict(ctx, d, name, h, 'export_npz', inf):
                return
            if not os.path.isfile(base + '.npz'):
                ctx.violation('export_npz:no_file', None, info=inf)
                return
            if old is not None:
                ctx.count('op:backup')
                b = base + '_old.npz'
                if not os.path.isfile(b) or open(b, 'rb').read() != old:
                    ctx.violation('export_npz:backup_lost', None, info=inf)
            if not cmp_dict(ctx, np.load(base + '.npz'), name, h, 'npz_file', inf):
                return
            load(ctx, rng, new, h, None, nmax, inf, gp, sc)
        if op != 'store' and not rows_ok(ctx, gp, h, 'after:' + op, inf):
            return
        ctx.count('op:' + op)
        ctx.nontrivial((kern, wc, ug, noise, op, len(rows)))
    # another surrogate in the same file
    if rng.random() < 0.4:
        no = int(rng.integers(2, 12))       # not as long as the first one
        o = new(no, nm='other_')
        ho = Hist(o, no)
        sc2 = data()
        gen.put_data(o, sc2)
        for _ in range(2):
            if not store(ctx, rng, o, ho, sc2, no, inf) or not rows_ok(ctx, o, ho, 'store', inf):
                return
        m = dict(gp.export_data_surr(save2file=False))
        m.update(o.export_data_surr(save2file=False))
        np.savez('shared.npz', **m)
        z = np.load('shared.npz')
        ctx.count('op:shared_file')
        for nm, hh in ((name, h), ('other_', ho)):
            for form in (z, m):
                q = new(hh.n, nm=nm)
                ok, _ = ctx.guard('load_shared', q.load_data_surr, form, info=inf)
                if ok:
                    check(ctx, q, hh, 'load_shared', inf)
        os.remove('shared.npz')
    if rng.random() < 0.15:
        q = new(nmax, path='absent_file')
        hq = Hist(q, nmax)
        ctx.count('op:absent')
        ok, _ = ctx.guard('load_absent', q.load_data_surr, info=inf)
        if ok:
            check(ctx, q, hq, 'load_absent', inf)
    # finish
    if rng.random() < 0.6:
        k = int(rng.integers(0 if rng.random() < 0.1 else 1, nmax + 1))
        ok, _ = ctx.guard('finish', gp.finish_optz_surr, k, info=inf)
        if not ok:
            return
        ctx.count('op:finish')
        for nme in NAMES:
            h.a[nme] = h.a[nme][:k]
        h.n = k
        h.sc = h.sc[:k]
        h.loose = {x for x in h.loose if x[1] < k}
        if not check(ctx, gp, h, 'finish', inf):
            return
        ok, d = ctx.guard('export', gp.export_data_surr, save2file=bool(rng.random() < .5), info=inf)
        if ok and cmp_dict(ctx, d, name, h, 'finish_export', inf):
            load(ctx, rng, new, h, {a: np.array(v, copy=True) for a, v in d.items()}, nmax, inf, gp, None)
    for f in os.listdir('.'):
        if f.endswith('.npz'):
            os.remove(f)


def rows_ok(ctx, gp, h, op, inf):
    return check(ctx, gp, h, op, inf)


def compat(gp, sc):
    return True


def store(ctx, rng, gp, h, sc, nmax, inf, i=None):
    i = int(rng.integers(nmax)) if i is None else i
    u = rng.random()
    hp = dict(sc.hp)
    if rng.random() < 0.6:
        hp['theta'] = hp['theta'] * 10.0 ** rng.uniform(-1, 1, sc.dim)
        hp['varK'] = float(hp['varK'] * 10 ** rng.uniform(-2, 2))
    if sc.weff in gen.SCALED and sc.n > 1 and sc.dim > 1 and rng.random() < 0.5:
        gp.DataScl.set_xscale_data(xvec_scale_in=10.0 ** rng.uniform(-0.5, 0.5, sc.dim))
        ctx.count('aniso_rows')
    hv = gen.mk_hp(gp, hp)
    kw = {}
    cond = float(rng.choice([np.nan, 10 ** rng.uniform(0, 12), gp.cond_max * 0.98, gp.cond_max * 0.995, gp.cond_max * 1.5]))
    if rng.random() < 0.7:
        kw['cond_val'] = cond
    else:
        cond = np.nan
    t = [np.nan] * 3
    for j, nm in enumerate(('time_hp_optz', 'time_chofac', 'time_pick_hp0')):
        if rng.random() < 0.6:
            t[j] = kw[nm] = float(rng.uniform(0, 9))
    si = None
    if rng.random() < 0.6:
        si = dict(optz_n_cho_fail=int(rng.integers(5)), optz_n_cond2big=int(rng.integers(5)), optz_max_init_cond=float(10 ** rng.uniform(0, 9)))
        for k in OPT:
            if rng.random() < 0.8:
                si[k] = float(rng.uniform(0, 30))
        kw['surr_optz_info'] = dict(si)
    args = [i, hv]
    ok, _ = ctx.guard('store_new_para_surr', gp.store_new_para_surr, *args, info=inf, **kw)
    if not ok:
        return False
    a = h.a
    a['hp_beta_all'][i] = hp['beta']
    a['hp_theta_all'][i] = hp['theta']
    a['hp_kernel_all'][i] = np.nan if hp['kernel'] is None else np.ravel(hp['kernel'])[0]
    a['hp_varK_all'][i] = hp['varK']
    for k, nm in (('hp_var_fval_all', 'var_fval'), ('hp_var_fgrad_all', 'var_fgrad')):
        a[k][i] = np.nan if hp[nm] is None else hp[nm]
    a['Kcov_cond_all'][i] = cond
    a['Kcov_cond_at_max_all'][i] = bool(cond >= 0.99 * gp.cond_max)
    a['time_hp_optz_all'][i], a['time_chofac_all'][i], a['time_pick_hp0_all'][i] = t
    for k in OPT:
        if si is not None and k in si:
            a[k][i] = si[k]
        else:
            a[k][i] = np.nan        # nothing of an earlier call for the same row stays
    for k, nm in OPT2.items():
        a[k][i] = np.nan if si is None else si[nm]
    ctx.count('rows_replaced', h.sc[i] is not None)
    derived(ctx, gp, h, sc, i, hp['varK'], 'store', inf)
    h.sc[i] = sc
    ctx.sample(dict(op='store', row=i, config=inf, theta=hp['theta'], varK=hp['varK']))
    # the history keeps its own copy
    if u < 0.5:
        hv.theta[...] = -7.0
        hv.beta[...] = -7.0
        gp.hp_vals = gen.mk_hp(gp, hp)
    return True


def derived(ctx, gp, h, sc, i, varK, op, inf):
    """derived columns: compared with independent values, then pinned"""
    def near(k, want, rel=1e-9):
        got = getattr(gp, k)[i]
        if want is None:
            h.a[k][i] = got
            return
        w = np.asarray(want, float)
        g = np.asarray(got, float)
        with np.errstate(all='ignore'):
            bad = not (g.shape == w.shape and np.all((np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= rel * np.abs(w))))
        if bad:
            ctx.violation(f'{op}:derived:{k}', dict(row=i, got=got, want=want), info=inf)
        h.a[k][i] = got
    c = gp.cond_max_target - 1
    near('eta_Kbase_all', sc.n / c)
    g = gp.eta_Kgrad_all[i]
    if sc.use_grad:
        if not g >= 0.99 * sc.n / c or not g <= sc.n * (sc.dim + 1) / c * (1 + 1e-9):
            ctx.violation(f'{op}:derived:eta_Kgrad_all', dict(got=g), info=inf)
        near('eta_Kgrad_all', float(gp.calc_nugget(sc.n)[1]))
        near('min_nugget_all', h.a['eta_Kgrad_all'][i])
    else:
        near('eta_Kgrad_all', np.nan)
        near('min_nugget_all', sc.n / c)
    dm = vmin(sc.X)
    near('vmin_init_all', dm, rel=1e-6)
    near('vmin_req_grad_all', gen.vreq(sc.n, sc.dim) if sc.weff == 'rescale_origin' else np.nan)
    if sc.weff in gen.SCALED:
        near('xvec_rescaling_all', np.array(gp.DataScl.xvec_scale, float))
    else:
        near('xvec_rescaling_all', np.full(sc.dim, np.nan))
    vf = float(np.var(sc.f.astype(np.longdouble)))
    if sc.n > 1 and vf > 1e-20 * np.max(np.abs(sc.f)) ** 2:
        near('var_fval', vf, rel=1e-9 + 1e-14 * np.max(np.abs(sc.f)) ** 2 / vf)
        near('varK_var_fval', varK / h.a['var_fval'][i])
    else:
        near('var_fval', None)
        v = h.a['var_fval'][i]
        near('varK_var_fval', varK / v if v > 0 else np.nan)


def optz(ctx, gp, h, sc, i, inf, full):
    ok, _ = ctx.guard('optz' + (':full' if full else ':init'), gp.set_hpara, 'optz', i, info=inf)
    if not ok:
        return False
    if full:
        ctx.count('op:optz_full')
    v = gp.hp_vals
    a = h.a
    a['hp_beta_all'][i] = v.beta
    a['hp_theta_all'][i] = v.theta
    a['hp_kernel_all'][i] = np.nan if v.kernel is None else np.ravel(v.kernel)[0]
    a['hp_varK_all'][i] = v.varK
    a['hp_var_fval_all'][i] = np.nan if v.var_fval is None else v.var_fval
    a['hp_var_fgrad_all'][i] = np.nan if v.var_fgrad is None else v.var_fgrad
    if (v.var_fval is not None) != sc.unk_f or (v.var_fgrad is not None) != sc.unk_g:
        ctx.violation('optz:noise_hp', dict(vf=v.var_fval, vg=v.var_fgrad), info=inf)
    for k in ['Kcov_cond_all', 'Kcov_cond_at_max_all'] + (OPT + list(OPT2) if full else []) + ['time_pick_hp0_all', 'time_hp_optz_all', 'time_chofac_all']:
        h.loose.add((k, i))
    c = gp.Kcov_cond_all[i]
    if not c >= 1 - 1e-6:
        ctx.violation('optz:cond_not_stored', dict(cond=c), info=inf)
    if bool(gp.Kcov_cond_at_max_all[i]) != bool(c >= 0.99 * gp.cond_max):
        ctx.violation('optz:cond_at_max', dict(cond=c), info=inf)
    if full:
        for k in OPT:
            x = getattr(gp, k)[i]
            if not (x >= 0) or (k in ('hp_optz_success', 'hp_optz_con_good') and x > 1):
                ctx.violation('optz:' + k, dict(got=x), info=inf)
    else:
        for k in ('time_pick_hp0_all', 'time_hp_optz_all', 'time_chofac_all'):
            if getattr(gp, k)[i] != 0:
                ctx.violation('optz_init:' + k, None, info=inf)
        for k in OPT + list(OPT2):      # nothing has been optimized for this row
            a[k][i] = np.nan
    derived(ctx, gp, h, sc, i, float(v.varK), 'optz', inf)
    h.sc[i] = sc
    return True


def stored(ctx, gp, h, sc, i, inf):
    ok, _ = ctx.guard('stored', gp.set_hpara, 'stored', i, info=inf)
    if not ok:
        return False
    v, a = gp.hp_vals, h.a
    for nm, k in (('beta', 'hp_beta_all'), ('theta', 'hp_theta_all'), ('varK', 'hp_varK_all')):
        if not np.array_equal(np.ravel(getattr(v, nm)), np.ravel(a[k][i])):
            ctx.violation('stored:' + nm, dict(row=i, got=getattr(v, nm), want=a[k][i]), info=inf)
    if gp.kernel_type == 'RatQu' and not np.array_equal(np.ravel(v.kernel), np.ravel(a['hp_kernel_all'][i])):
        ctx.violation('stored:kernel', dict(row=i, got=v.kernel), info=inf)
    for nm, k in (('var_fval', 'hp_var_fval_all'), ('var_fgrad', 'hp_var_fgrad_all')):
        w = a[k][i]
        g = getattr(v, nm)
        if (g is None) != bool(np.isnan(w)) or (g is not None and g != w):
            ctx.violation('stored:' + nm, dict(row=i, got=g, want=w), info=inf)
    if sc.weff in gen.SCALED and h.sc[i] is sc and sc.n > 1:
        r = a['xvec_rescaling_all'][i]
        Y = np.abs(sc.X - sc.X[-1]).max() / vmin(sc.X)
        ctx.close('stored_scale', np.array(gp.DataScl.xvec_scale, float), r, r * 400 * E * (1 + Y) * max(1.0, r.max() / r.min()), 'stored:xvec_scale', info=inf)
    return True


def cmp_dict(ctx, d, name, h, op, inf):
    ok = True
    keys = set(d.files if hasattr(d, 'files') else d.keys())
    for k in NAMES:
        if name + k not in keys:
            ctx.violation(f'{op}:missing:{k}', None, info=inf)
            ok = False
        elif not same(np.asarray(d[name + k], dtype=h.a[k].dtype), h.a[k]):
            ctx.violation(f'{op}:value:{k}', dict(got=d[name + k], want=h.a[k]), info=inf)
            ok = False
    for k in keys:
        if not k.startswith(name):
            ctx.violation(f'{op}:prefix', dict(key=k), info=inf)
            ok = False
    return ok


def load(ctx, rng, new, h, d, nmax, inf, gp, sc):
    n2 = nmax + (int(rng.integers(0, 3)) if rng.random() < 0.5 else 0)
    q = new(n2)
    hq = Hist(q, n2)
    before = {k: v.copy() for k, v in d.items()} if d is not None else None
    first = rng.random() < 0.5
    if sc is not None and first:
        gen.put_data(q, sc)
    ok, _ = ctx.guard('load_data_surr', q.load_data_surr, *([] if d is None else [d]), info=inf)
    if not ok:
        return
    ctx.count('op:load')
    k = h.n
    for nm in NAMES:
        hq.a[nm][:k] = h.a[nm]
    if not check(ctx, q, hq, 'load', inf):
        return
    if before is not None and not all(same(before[x], d[x]) for x in before):
        ctx.violation('load:modified_input', None, info=inf)
    # loaded arrays are independent of the dictionary
    if d is not None:
        for v in d.values():
            v[...] = 0
        if not check(ctx, q, hq, 'load_alias', inf):
            return
    if sc is None:
        return
    if not first:
        gen.put_data(q, sc)
    rows = [r for r in range(k) if h.sc[r] is sc]
    if not rows or rng.random() < 0.3:
        return
    i = int(rng.choice(rows))
    if not stored(ctx, q, hq_with(hq, h), sc, i, inf):
        return
    if q.KernEta_chofac is None:
        return
    P = gen.eval_points(rng, sc, 2)
    ok, o = ctx.guard('loaded:eval_model', q.eval_model, P, info=inf)
    if not ok:
        return
    ctx.count('loaded_predict')
    hp = dict(beta=np.array(h.a['hp_beta_all'][i]), theta=np.array(h.a['hp_theta_all'][i]), varK=float(h.a['hp_varK_all'][i]),
              kernel=float(h.a['hp_kernel_all'][i]) if sc.kernel == 'RatQu' else None,
              var_fval=float(h.a['hp_var_fval_all'][i]) if sc.unk_f else None, var_fgrad=float(h.a['hp_var_fgrad_all'][i]) if sc.unk_g else None)
    xs = np.array(h.a['xvec_rescaling_all'][i]) if sc.weff in gen.SCALED else None
    M, wk = gen.ref_model(sc, float(q.etaK_eval), hp=hp, xscale=xs)
    try:
        w, t = gen.ref_predict(M, wk, P, grad=False)
    except ref.NotPD:
        return
    if t is None or float(np.max(t['sig2'])) > 1e-3 * float(M.varK / wk['osc'] ** 2):
        ctx.count('skipped_illcond')
        return
    Y = 1.0 if sc.n == 1 or xs is None else (1 + np.abs(sc.X - sc.X[-1]).max() / vmin(sc.X)) * xs.max() / xs.min()
    ctx.close('loaded_mu', o[0], w['mu'], t['mu'] * (1 + Y), 'loaded:mu:' + sc.weff, info=inf)
    ctx.close('loaded_sig2', o[1] ** 2, w['sig2'], t['sig2'] * (1 + Y), 'loaded:sig:' + sc.weff, info=inf)


def hq_with(hq, h):
    hq.sc = list(h.sc) + [None] * (hq.n - len(h.sc))
    return hq

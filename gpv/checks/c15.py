"""C15: misuse is rejected; stale-hyperparameter guard."""
import contextlib
import copy
import io
import numpy as np
from .. import gen, ref

RULE = ('case = random valid model; every misuse of a table (inconsistent shapes in set_data, wrong options, bad evaluation points, stale hyperparameters or data, wrong order of calls) applied to it must '
        'raise an ordinary exception, and every valid counterpart must not; class = (misuse, kernel, method, use_grad, mask, noise)')
ASSUMPTIONS = ['rejection = a Python exception of any type; asserts count as rejection (python -O is not used)',
               'a stale-hyperparameter change is a change of value: an equal copy is not a change']
SETDATA = ['x_more', 'x_less', 'x_cols_more', 'x_cols_less', 'x_1d', 'x_3d', 'sf_more', 'sf_less', 'sf_scalar', 'g_none', 'g_more', 'g_less', 'g_cols', 'g_cols_less', 'g_1d', 'g_T', 'g_unmasked',
           'mask_long', 'mask_short', 'mask_extra', 'mask_less', 'sg_more', 'sg_less', 'sg_cols', 'sg_1d', 'sg_T', 'x_T', 'sg_unmasked', 'g_unexpected', 'mask_unexpected']
NAMES = ['kernel', 'mean', 'wellcond', 'wellcond_later', 'mean_later', 'set_hpara', 'cond_norm', 'start_mtd', 'eta_mtd', 'x_scl_method', 'obj_scl_method', 'best_method', 'dim_type', 'use_grad_type']
EVAL = ['pts_3d', 'pts_0d', 'pts_cols_more', 'pts_cols_less', 'pts_1d_more', 'pts_1d_less', 'squeeze_many', 'hess_many', 'hess_no_grad', 'var_hess', 'before_set_hpara', 'stale_data']
HP = ['varK_zero', 'varK_neg', 'varK_nan', 'set_none', 'method_type', 'current_unset', 'stored_neg', 'theta_nan', 'beta_size']
STALE = ['new_theta', 'new_beta', 'new_varK', 'new_kernel', 'new_vf', 'new_vg', 'attr_theta', 'attr_beta', 'attr_varK', 'attr_kernel', 'attr_vf', 'attr_vg', 'inplace_theta', 'inplace_beta', 'tiny', 'custom']


def shards(tier):
    k, n = (8, 450) if tier == 'quick' else (24, 1000)
    s = [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]
    if tier != 'quick':
        s += [dict(name=f'j{kn}', mode='jit0', n=40, kernel=kn) for kn in gen.KERNELS]
    return s


def REQUIRED(tier):
    d = {'m:' + k: 100 for k in SETDATA + NAMES + EVAL + HP}
    d.update({'m:' + k: 60 for k in STALE})
    d.update({'valid': 3000, 'unchanged': 1500, 'm:g_unexpected': 40, 'm:mask_unexpected': 40, 'm:attr_kernel': 40, 'm:new_kernel': 40, 'm:x_less': 80,
              'm:new_vf': 25, 'm:new_vg': 25, 'm:attr_vf': 25, 'm:attr_vg': 25, 'resetup': 400, 'm:g_T': 60, 'm:g_unmasked': 25, 'm:sg_unmasked': 25, 'm:mask_extra': 25, 'm:var_hess': 60,
              'm:pts_cols_less': 60, 'm:pts_1d_less': 60, 'm:x_cols_less': 60, 'm:sf_scalar': 40, 'm:sf_less': 40, 'm:sf_more': 40, 'm:sg_more': 40, 'm:sg_less': 40, 'm:sg_cols': 40, 'm:sg_1d': 40, 'm:sg_T': 30, 'm:x_T': 60,
              'm:g_cols_less': 60, 'm:mask_less': 80, 'm:no_factorization': 200, 'm:eta_mtd': 40})
    return d


class T:
    def __init__(self, ctx, sc):
        self.ctx, self.sc, self.inf = ctx, sc, sc.short()

    def rejects(self, kind, fn, *a, **kw):
        self.ctx.count('m:' + kind)
        sc = self.sc
        self.ctx.nontrivial((kind,) + sc.cls())
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn(*a, **kw)
        except Exception:       # noqa
            return True
        self.ctx.violation('accepted:%s:%s:%s' % (kind, sc.weff, 'grad' if sc.use_grad else 'nograd'), dict(returned=repr(r)[:300]), info=self.inf)
        return False

    def ok(self, kind, fn, *a, **kw):
        self.ctx.count('valid')
        return self.ctx.guard('valid:' + kind, fn, *a, info=self.inf, **kw)


def run(ctx):
    sh = ctx.shard
    kw = dict(kernels=[sh['kernel']]) if 'kernel' in sh else {}
    for i, rng in ctx.cases(sh['n']):
        sc = gen.gen(rng, alpha_types=('float', 'float', 'array'), nmax=6, dmax=4, ndata_max=24, moderate=True, **kw)
        t = T(ctx, sc)
        data(ctx, t, sc, rng)
        names(ctx, t, sc, rng)
        evals(ctx, t, sc, rng)


def fresh(sc):
    gp = gen.mk_gp(sc)
    return gp


def data(ctx, t, sc, rng):
    base = dict(x_eval=gen.cp(sc.X), fval=gen.cp(sc.f), std_fval=gen.cp(sc.sf), grad=gen.cp(sc.g), std_grad=gen.cp(sc.sg), bvec_use_grad=gen.cp(sc.bvec))
    n, d, ng = sc.n, sc.dim, sc.ng

    def bad(kind, **ch):
        a = {k: gen.cp(v) for k, v in base.items()}
        a.update(ch)
        gp = fresh(sc)
        if t.rejects(kind, gp.set_data, **a) and rng.random() < 0.15:
            # a rejected call must not prevent a valid one
            t.ok('set_data_after_rejected', gp.set_data, **{k: gen.cp(v) for k, v in base.items()})
    X, f, sf, g, sg, b = sc.X, sc.f, sc.sf, sc.g, sc.sg, sc.bvec
    bad('x_more', x_eval=np.vstack((X, X[:1] + 1)))
    if n > 1:
        bad('x_less', x_eval=X[:-1])
    bad('x_cols_more', x_eval=np.hstack((X, X[:, :1])))
    if d > 1:
        bad('x_cols_less', x_eval=X[:, :-1])
    if n != d:
        bad('x_T', x_eval=np.ascontiguousarray(X.T))
    bad('x_1d', x_eval=X[:, 0] if d == 1 else X.ravel())
    bad('x_3d', x_eval=X[None])
    if sf is not None and not np.any(np.isnan(sf)):
        bad('sf_more', std_fval=np.append(sf, sf[-1]))
        if n > 1:
            bad('sf_less', std_fval=sf[:-1])
            bad('sf_scalar', std_fval=sf[:1])
    if sc.use_grad:
        bad('g_none', grad=None, std_grad=None)
        bad('g_more', grad=np.vstack((g, np.ones((1, d)))))
        if ng > 0:
            bad('g_less', grad=g[:-1])
            bad('g_cols', grad=np.hstack((g, g[:, :1])))
            bad('g_1d', grad=g.ravel())
        if ng > 0 and d > 1:
            bad('g_cols_less', grad=g[:, :-1])
        if ng not in (0, d) and d > 1:
            bad('g_T', grad=np.ascontiguousarray(g.T), std_grad=None)
        if ng < n:
            bad('g_unmasked', grad=np.ones((n, d)), std_grad=None)
        bb = np.ones(n, bool) if b is None else b
        bad('mask_long', bvec_use_grad=np.append(bb, False))
        if n > 1:
            # same number of selected gradients, one entry short
            if bb.all():
                bad('mask_short', bvec_use_grad=bb[:-1])
            else:
                bad('mask_short', bvec_use_grad=np.delete(bb, np.argwhere(~bb)[0, 0]))
        if not bb.all():
            m = bb.copy()
            m[np.argwhere(~bb)[0, 0]] = True
            bad('mask_extra', bvec_use_grad=m)
        if bb.any():
            m = bb.copy()
            m[np.argwhere(bb)[0, 0]] = False
            bad('mask_less', bvec_use_grad=m)
        if sg is not None and not np.any(np.isnan(sg)):
            bad('sg_more', std_grad=np.vstack((sg, np.ones((1, d)))))
            if ng > 0:
                bad('sg_less', std_grad=sg[:-1])
                bad('sg_cols', std_grad=np.hstack((sg, sg[:, :1])))
                bad('sg_1d', std_grad=sg.ravel())
                if ng != d and d > 1:
                    bad('sg_T', std_grad=np.ascontiguousarray(sg.T))
            if ng < n:
                bad('sg_unmasked', std_grad=np.ones((n, d)))
    else:
        bad('g_unexpected', grad=np.ones((n, d)))
        bad('mask_unexpected', bvec_use_grad=np.ones(n, bool))
    t.ok('set_data', fresh(sc).set_data, **{k: gen.cp(v) for k, v in base.items()})


def names(ctx, t, sc, rng):
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    from gpgradpy.src.base.Rescaling import Rescaling
    from gpgradpy.results.PltOptzResults import PltOptzResults as PR

    def typo(s):
        c = [s.lower(), s.upper(), s + ' ', s[:-1], s + 'x', '', 'none', s[::-1], s + '_' + s]
        c = [x for x in c if x != s and x not in ['dflt_max', 'obj_scl'] + gen.KERNELS + gen.WC_GRAD + ['poly_ord_0', 'stored', 'optz', 'current', 'set', 'hp_best', 'lhs', 'fro', 'Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta',
                                                                   'set_vmin', 'set_vmax', 'min', 'max']]
        return str(rng.choice(c))
    t.rejects('kernel', GP, sc.dim, sc.use_grad, typo(sc.kernel), sc.wc)
    t.rejects('kernel', GP, sc.dim, sc.use_grad, None, sc.wc)
    t.rejects('mean', GP, sc.dim, sc.use_grad, sc.kernel, sc.wc, typo('poly_ord_0') if rng.random() < 0.5 else str(rng.choice(['poly_ord_1', 'poly_ord_2', 'poly', 'zero'])))
    t.rejects('wellcond', GP, sc.dim, sc.use_grad, sc.kernel, typo(sc.wc))
    t.rejects('dim_type', GP, float(sc.dim), sc.use_grad, sc.kernel, sc.wc)
    t.rejects('use_grad_type', GP, sc.dim, int(sc.use_grad), sc.kernel, sc.wc)
    gp = fresh(sc)
    t.rejects('wellcond_later', gp.set_wellcond_mtd, typo(sc.wc))
    t.rejects('mean_later', gp.set_mean_fun_op, typo('poly_ord_0'))
    gp = fresh(sc)
    gen.put_data(gp, sc)
    hp = gen.mk_hp(gp, sc.hp)
    t.rejects('set_hpara', gp.set_hpara, typo(str(rng.choice(['set', 'stored', 'optz', 'current']))), 1, hp)
    t.rejects('method_type', gp.set_hpara, None if rng.random() < 0.5 else 1, 1, hp)
    t.rejects('set_none', gp.set_hpara, 'set', 1)
    g2 = fresh(sc)
    gen.put_data(g2, sc)
    t.rejects('current_unset', g2.set_hpara, 'current', 1)
    g2.init_optz_surr(3)
    g2.store_new_para_surr(0, gen.mk_hp(g2, sc.hp))
    t.rejects('stored_neg', g2.set_hpara, 'stored', -1 - int(rng.integers(3)))
    ok, _ = t.ok('set_hpara_stored', g2.set_hpara, 'stored', 0)
    g3 = fresh(sc)
    g3.cond_norm = rng.choice([1, 3]) if rng.random() < 0.5 else typo('fro')
    gen.put_data(g3, sc)
    t.rejects('cond_norm', g3.calc_cond_w_grad, np.eye(3) + 0.1, None)
    g3 = fresh(sc)
    gen.put_data(g3, sc)
    g3.init_optz_surr(3)
    g3.store_new_para_surr(0, gen.mk_hp(g3, sc.hp))
    g3.lkd_optz_start_mtd = typo('hp_best')
    t.rejects('start_mtd', g3.select_hp_optz_x0, 1, g3.hp_info_optz_lkd)
    if sc.use_grad and sc.n > 1 and not sc.weff.startswith('rescale') and sc.weff != 'precon':
        g4 = fresh(sc)
        g4.cond_eta_set_mtd = typo('Kbase_eta')
        t.rejects('eta_mtd', gen.put_data, g4, sc)
    # rescaling objects
    t.rejects('x_scl_method', Rescaling, sc.X, x_scl_method=typo('set_vmin'))
    R = Rescaling(gen.cp(sc.X))
    t.rejects('obj_scl_method', R.set_obj_data, sc.f, None, None, None, obj_scl_method=typo('dflt_max'))
    t.rejects('best_method', PR.best_at_all_iter, np.arange(3.0), typo('min'))


def evals(ctx, t, sc, rng):
    gp = fresh(sc)
    gen.put_data(gp, sc)
    d = sc.dim
    P = gen.eval_points(rng, sc, 3)
    t.rejects('before_set_hpara', gp.eval_model, P)
    hp = gen.mk_hp(gp, sc.hp)
    ok, _ = t.ok('set_hpara', gp.set_hpara, 'set', 0, hp)
    if not ok or gp.KernEta_chofac is None:
        return
    fns = [('eval_model', gp.eval_model)]
    if not gp.b_use_data_scl:
        fns.append(('eval_model_var', gp.eval_model_var))

    def valid(kind):
        r = True
        for nm, fn in fns:
            ctx.count('unchanged')
            try:
                o = fn(P[:1])
            except AssertionError as e:
                if 'non-negative' in str(e):
                    ctx.count('skipped_rounding_variance')
                    return False
                o = None
            except Exception as e:      # noqa
                ctx.violation('guard_on_unchanged:%s:%s' % (kind, nm), dict(error=str(e)[:200]), info=t.inf)
                r = False
        return r
    if not valid('setup'):
        return
    cg = bool(rng.random() < 0.5)
    for nm, fn in fns:
        t.rejects('pts_3d', fn, P[None], calc_grad=cg)
        t.rejects('pts_0d', fn, np.float64(0.3))
        t.rejects('pts_cols_more', fn, np.hstack((P, P[:, :1])), calc_grad=cg)
        t.rejects('pts_1d_more', fn, np.append(P[0], 0.1))
        if d > 1:
            k = int(rng.integers(1, d))
            t.rejects('pts_cols_less', fn, P[:, :k], calc_grad=cg)
            t.rejects('pts_1d_less', fn, P[0, :k])
        t.rejects('squeeze_many', fn, P, squeeze_nx=True, calc_grad=cg)
        t.rejects('hess_many', fn, P[:int(rng.integers(2, 4))], calc_grad=True, calc_hess=True)
        t.rejects('hess_no_grad', fn, P[:1], calc_hess=True)
    if not gp.b_use_data_scl:
        t.rejects('var_hess', gp.eval_model_var, P[:1], calc_grad=True, calc_hess=True)
    else:
        t.rejects('var_hess', gp.eval_model_var, P[:1])
    # hyperparameters
    g2 = fresh(sc)
    gen.put_data(g2, sc)
    h = sc.hp
    t.rejects('varK_zero', g2.set_custom_hp, h['beta'], h['theta'], h['kernel'], 0.0)
    t.rejects('varK_neg', g2.set_custom_hp, h['beta'], h['theta'], h['kernel'], -h['varK'])
    t.rejects('varK_nan', g2.set_custom_hp, h['beta'], h['theta'], h['kernel'], np.nan)
    t.ok('set_custom_hp', g2.set_custom_hp, gen.cp(h['beta']), gen.cp(h['theta']), h['kernel'], h['varK'], h['var_fval'], h['var_fgrad'])
    th = gen.cp(h['theta'])
    th[int(rng.integers(d))] = np.nan
    t.rejects('theta_nan', g2.set_hpara, 'set', 0, gen.mk_hp(g2, dict(h, theta=th)))
    t.rejects('beta_size', g2.set_hpara, 'set', 0, gen.mk_hp(g2, dict(h, beta=np.append(h['beta'], 1.0))))
    # stale hyperparameters
    for kind in STALE:
        if rng.random() < 0.6:
            stale(ctx, t, sc, rng, kind, P, valid)
    no_factorization(ctx, t, sc, rng, P)
    # new data without a new setup
    o = gen.gen(rng, kernels=[sc.kernel], use_grad=sc.use_grad, wcs=[sc.wc], noises=['zero'], masks=['none'], dmin=d, dmax=d, nmin=sc.n, nmax=sc.n, ndata_max=99, opts=dict(sc.opts), eta_const=1.0)
    g3 = fresh(sc)
    gen.put_data(g3, sc)
    g3.set_hpara('set', 0, gen.mk_hp(g3, sc.hp))
    ok, _ = t.ok('set_data_again', gen.put_data, g3, o)
    if ok:
        t.rejects('stale_data', g3.eval_model, P, calc_grad=cg)
        if not g3.b_use_data_scl:
            t.rejects('stale_data', g3.eval_model_var, P)


def no_factorization(ctx, t, sc, rng, P):
    """Coincident noise-free points and no nugget: the covariance cannot be factorized and the model must refuse to predict."""
    o = gen.gen(rng, kernels=[sc.kernel], use_grad=sc.use_grad, wcs=[str(rng.choice(['base', 'precon']))] if sc.use_grad else ['base'], noises=['zero'], masks=['none'], dmin=sc.dim, dmax=sc.dim, nmin=3, nmax=5,
                ndata_max=30, eta_const=1.0, moderate=True)
    o.opts.update(cond_eta_set_mtd='dflt_eta', cond_eta_dflt=1e-60, cond_eta_is_const=True)
    k = int(rng.integers(1, o.n))
    o.X[k:] = o.X[:1] + (rng.standard_normal((o.n - k, o.dim)) * 1e-10 if rng.random() < 0.5 else 0.0) * (1 + np.abs(o.X[:1]))
    g = fresh(o)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        gen.put_data(g, o)
        g.set_hpara('set', 0, gen.mk_hp(g, o.hp))
    if g.KernEta_chofac is None:
        for fn in [g.eval_model, g.eval_model_var] if not g.b_use_data_scl else [g.eval_model]:
            t.rejects('no_factorization', fn, P[:1], calc_grad=bool(rng.random() < 0.5))
        with contextlib.redirect_stdout(out):
            li, good = g.calc_lkd_all(gen.mk_hp(g, o.hp), calc_cond=bool(rng.random() < 0.5), calc_grad=False)
        if good or li.ln_lkd is not None:
            ctx.violation('likelihood_without_factorization:' + o.weff, dict(ln_lkd=li.ln_lkd), info=o.short())


def stale(ctx, t, sc, rng, kind, P, valid):
    gp = fresh(sc)
    gen.put_data(gp, sc)
    hp = gen.mk_hp(gp, sc.hp)
    gp.set_hpara('set', 0, hp)
    fns = [gp.eval_model] if gp.b_use_data_scl else [gp.eval_model, gp.eval_model_var]
    # valid variants first: equal copies, identical object
    r = rng.random()
    if r < 0.3:
        gp.hp_vals = copy.deepcopy(gp.hp_vals)
    elif r < 0.5:
        gp.hp_vals.theta = gp.hp_vals.theta.copy()
        gp.hp_vals.beta = gp.hp_vals.beta.copy()
    elif r < 0.6:
        gp.hp_vals = gen.mk_hp(gp, sc.hp)
    for fn in fns:
        ctx.count('unchanged')
        try:
            fn(P[:1])
        except Exception as e:      # noqa
            if isinstance(e, AssertionError) and 'non-negative' in str(e):
                return
            ctx.violation('guard_on_unchanged:' + kind, dict(error=str(e)[:200]), info=t.inf)
            return
    f = 1 + float(10 ** rng.uniform(-8, 0.3))
    j = int(rng.integers(sc.dim))
    new = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in sc.hp.items()}
    th = sc.hp['theta'].copy()
    th[j] *= f
    be = sc.hp['beta'] * f + 0.1
    al = None if sc.hp['kernel'] is None else np.asarray(sc.hp['kernel']) * f
    if al is not None and not isinstance(sc.hp['kernel'], np.ndarray):
        al = float(al)
    ch = dict(theta=th, beta=be, varK=sc.hp['varK'] * f, kernel=al, vf=None if sc.hp['var_fval'] is None else sc.hp['var_fval'] * f,
              vg=None if sc.hp['var_fgrad'] is None else sc.hp['var_fgrad'] * f)
    att = dict(theta='theta', beta='beta', varK='varK', kernel='kernel', vf='var_fval', vg='var_fgrad')
    if '_' in kind and kind.split('_')[1] in ch and ch[kind.split('_')[1]] is None:
        return
    if kind.startswith('new_'):
        k = kind[4:]
        new[att[k]] = ch[k]
        gp.hp_vals = gen.mk_hp(gp, new)
    elif kind.startswith('attr_'):
        k = kind[5:]
        setattr(gp.hp_vals, att[k], ch[k])
    elif kind == 'inplace_theta':
        gp.hp_vals.theta[j] *= f
    elif kind == 'inplace_beta':
        gp.hp_vals.beta += 0.1
    elif kind == 'tiny':
        if rng.random() < 0.5:
            gp.hp_vals.theta[j] = np.nextafter(gp.hp_vals.theta[j], np.inf)
        else:
            gp.hp_vals.varK = float(np.nextafter(gp.hp_vals.varK, np.inf))
    elif kind == 'custom':
        gp.set_custom_hp(new['beta'], ch['theta'], new['kernel'], new['varK'], new['var_fval'], new['var_fgrad'])
    for fn in fns:
        t.rejects(kind, fn, P[:1], calc_grad=bool(rng.random() < 0.5))
    if rng.random() < 0.5:
        ok, _ = t.ok('setup_again', gp.set_hpara, 'current', 1)
        if not ok or gp.KernEta_chofac is None:
            return
        ctx.count('resetup')
        for fn in fns:
            ctx.count('unchanged')
            try:
                fn(P[:1])
            except Exception as e:      # noqa
                if not (isinstance(e, AssertionError) and 'non-negative' in str(e)):
                    ctx.violation('guard_on_unchanged:resetup:' + kind, dict(error=str(e)[:200]), info=t.inf)

"""C14: results depend only on the current data and hyperparameters; no caller array is modified."""
import copy
import dataclasses
import numpy as np
from .. import gen, ref
from . import c08

RULE = ('case = one object with a random past (other data sets, masks, noise settings, stored/restored/loaded history, optimization, evaluations, changed and restored options, rejected calls, '
        'other objects with other options in between) brought to a data set and hyperparameters, and a fresh object given only these; every public result is compared bit for bit; '
        'deep copies of every array and hyperparameter object passed in are compared before and after every call; batches against single points and repeated calls; '
        'class = (kernel, method, use_grad, mask, noise, past operations)')
ASSUMPTIONS = ['bitwise comparison in one process with one BLAS thread; a difference is reported only if several fresh objects agree with each other bit for bit',
               'optimization of the hyperparameters after a different past is covered by C10 (repeat) and C13 (history)']
PAST = ['data', 'eval', 'lkd', 'store', 'optz', 'stored', 'load', 'opts', 'reject', 'other', 'scale', 'info', 'vec']


def shards(tier):
    k, n = (8, 400) if tier == 'quick' else (24, 1500)
    s = [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]
    if tier != 'quick':
        s += [dict(name=f'j{kn}', mode='jit3', n=120, kernel=kn) for kn in gen.KERNELS]
    return s


def REQUIRED(tier):
    d = {'past:' + p: 120 for p in PAST}
    d.update({'final_compared': 450, 'outputs_compared': 12000, 'frozen_checks': 15000, 'batch_vs_single': 400, 'repeat': 400, 'squeeze': 300, 'hess': 250, 'large_batch': 100, 'same_vector': 500, 'pure_calls': 10000})
    return d


# ---------------------------------------------------------------- frozen arguments
def snap(v):
    if isinstance(v, np.ndarray):
        return ('a', v.dtype.str, v.shape, v.flags['C_CONTIGUOUS'], v.tobytes())
    if dataclasses.is_dataclass(v):
        return ('d', type(v).__name__, tuple((k, snap(x)) for k, x in sorted(vars(v).items())))
    if isinstance(v, (tuple, list)):
        return ('t', tuple(snap(x) for x in v))
    if isinstance(v, dict):
        return ('m', tuple((k, snap(v[k])) for k in sorted(v)))
    return ('s', repr(v))


class Watch:
    """calls with a monitor on everything the caller owns"""

    def __init__(self, ctx, inf):
        self.ctx, self.inf = ctx, inf
        self.own = []

    def keep(self, *vs):
        """objects owned by the caller that must stay as they are during later calls, too"""
        for v in vs:
            if v is not None:
                self.own.append((v, snap(v)))

    def call(self, name, fn, *a, **kw):
        args = list(a) + list(kw.values())
        before = [snap(x) for x in args]
        try:
            return fn(*a, **kw)
        finally:
            self.ctx.count('frozen_checks')
            for x, b in zip(args, before):
                if snap(x) != b:
                    self.ctx.violation('mutated:%s' % name, dict(arg=type(x).__name__), info=self.inf)
            for x, b in self.own:
                if snap(x) != b:
                    self.ctx.violation('mutated_earlier:%s' % name, dict(arg=type(x).__name__), info=self.inf)
                    self.own = [(v, snap(v)) for v, _ in self.own]
                    break

    def opt(self, name, fn, *a, **kw):
        """a call that is allowed to fail"""
        try:
            return self.call(name, fn, *a, **kw)
        except Exception as e:      # noqa
            self.ctx.count('past_call_raised:%s:%s' % (name, type(e).__name__))
            return None


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or np.isscalar(a):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object or b.dtype == object:
            return repr(a) == repr(b)
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc' and b.dtype.kind in 'fc')
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if dataclasses.is_dataclass(a):
        return type(a).__name__ == type(b).__name__ and all(same(x, getattr(b, k)) for k, x in vars(a).items())
    if isinstance(a, (int, float, np.floating, np.integer, np.bool_, bool, type(None), str)):
        return a == b or (a != a and b != b)
    return True


def results(w, gp, sc, P, vec, hpv):
    """every result of the object for the data and hyperparameters in force; exceptions are results, too"""
    out = {}

    def put(name, fn, *a, **kw):
        try:
            r = w.call(name, fn, *a, **kw)
            out[name] = copy.deepcopy(r)
        except Exception as e:      # noqa
            out[name] = ('raised', type(e).__name__)
    out['etaK_eval'] = gp.etaK_eval
    out['condK'] = gp.condK
    put('eval_model', gp.eval_model, P)
    put('eval_model_g', gp.eval_model, P, calc_grad=True)
    put('eval_model_h', gp.eval_model, P[:1], calc_grad=True, calc_hess=True, squeeze_nx=True)
    put('eval_model_var', gp.eval_model_var, P, calc_grad=True)
    hp = gen.mk_hp(gp, hpv)
    for adj in (True, False):
        put('calc_lkd_all%d' % adj, gp.calc_lkd_all, hp, calc_cond=True, calc_grad=True, lkd_use_adj_mtd=adj)
    put('calc_lkd_all_v', gp.calc_lkd_all, hp)
    put('val', gp.return_optz_val, vec)
    put('grad', gp.return_optz_grad, vec)
    put('cond', gp.return_cond_val, vec)
    put('condg', gp.return_cond_grad, vec)
    x, R = gp.get_scl_x_w_dist()
    out['x'], out['R'] = np.array(x), np.array(R)
    put('all_K', gp.calc_all_K_w_chofac, R, hp, calc_cond=True)
    put('all_K_n', gp.calc_all_K_w_chofac, R, hp, b_normlz_w_varK=True, calc_cond=True)
    put('noise', gp.calc_noise_vec, hp)
    put('scl', gp.get_scl_eval_data)
    put('init', gp.get_init_eval_data)
    put('inithp', gp.get_init_hp_vals)
    put('vec2dc', gp.hp_vec2dataclass, gp.hp_info_optz_lkd, vec)
    put('Kern_grad_hp', gp.calc_KernGrad_hp, gp.hp_info_optz_lkd, hp, R)
    if isinstance(out['all_K'], tuple) and len(out['all_K']) > 2:
        put('Kcov_grad_hp', gp.calc_Kcov_grad_hp, gp.hp_info_optz_lkd, hp, out['all_K'][0], R)
    put('x2s', gp.x_init_2_scl, P)
    put('s2x', gp.x_scl_2_init, P)
    if gp.b_use_data_scl:
        out['xs'] = np.array(gp.DataScl.xvec_scale)
    put('eval_model_again', gp.eval_model, P, calc_grad=True)
    if not same(out['eval_model_again'], out['eval_model_g']):
        w.ctx.violation('repeat_differs:eval_model', None, info=w.inf)
    w.ctx.count('repeat')
    return out


def diff(a, b):
    return [k for k in a if not same(a[k], b.get(k))]


def run(ctx):
    sh = ctx.shard
    kw = dict(kernels=[sh['kernel']]) if 'kernel' in sh else {}
    for i, rng in ctx.cases(sh['n']):
        case(ctx, rng, kw)


def case(ctx, rng, kw):
    sc = gen.gen(rng, alpha_types=('float', 'float', 'array'), nmax=6, dmax=3, ndata_max=20, **kw)
    if not sc.use_grad:
        sc.wc = 'base' if sc.wc in gen.SCALED else sc.wc
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    inf = sc.short()
    w = Watch(ctx, inf)
    cls = GP
    gp = gen.mk_gp(sc)
    opts = {k: getattr(gp, k) for k in ('cond_max', 'cond_max_target', 'cond_eta_set_mtd', 'cond_eta_is_const', 'cond_eta_dflt', 'lkd_varK_pnlt_use', 'lkd_use_adj_mtd', 'cond_norm',
                                        'optz_log_hp_theta', 'optz_log_hp_var', 'optz_log_hp_kernel', 'b_optz_hp_kernel', 'hp_const_n_eval', 'hp_kernel', 'cond_dist_min_dflt',
                                        'cond_dist_max_dflt') if hasattr(gp, k)}
    st = dict(rows=0, cur=None, gp=gp, past=[])
    for _ in range(int(rng.integers(1, 9))):
        op = str(rng.choice(PAST))
        past(ctx, w, rng, gp, sc, st, op, opts)
        for k, v in opts.items():
            if getattr(gp, k) is not v and not same(getattr(gp, k), v):
                setattr(gp, k, v)
        st['past'].append(op)
        ctx.count('past:' + op)
    # bring both objects to the data
    hpo = gen.mk_hp(gp, sc.hp)
    arrs = [gen.cp(a) for a in (sc.X, sc.f, sc.sf, sc.g, sc.sg, sc.bvec)]
    cond = bool(rng.random() < 0.5)

    def setup(g, w_, hp):
        try:
            w_.call('set_data', g.set_data, *arrs)
            w_.call('set_hpara', g.set_hpara, 'set', 0, hp, cond)
            return None
        except Exception as e:      # noqa
            return type(e).__name__
    hp2 = dict(sc.hp)
    if rng.random() < 0.5:
        hp2['theta'] = hp2['theta'] * 10.0 ** rng.uniform(-0.5, 0.5, sc.dim)
    if rng.random() < 0.5:
        same_vector(ctx, w, rng, gp, sc, arrs, hp2)
    ea = setup(gp, w, hpo)
    w.keep(hpo, *arrs)
    fresh = gen.mk_gp(sc, cls)
    eb = setup(fresh, w, gen.mk_hp(fresh, sc.hp))
    if ea != eb:
        ctx.violation('setup_differs:%s:%s' % (sc.weff, '+'.join(sorted(set(st['past'])))), dict(used=ea, fresh=eb), info=inf)
        return
    if ea is not None:
        ctx.violation('setup:exc:' + ea, None, info=inf)
        return
    P = gen.eval_points(rng, sc, int(rng.integers(2, 4)))
    ip = fresh.hp_info_optz_lkd
    flags = (fresh.optz_log_hp_theta, fresh.optz_log_hp_kernel, fresh.optz_log_hp_var)
    vec = mkvec(ip, hp2, flags)
    w.keep(P, vec)
    a = results(w, gp, sc, P, vec, hp2)
    b = results(w, fresh, sc, P, vec, hp2)
    ctx.count('final_compared')
    ctx.count('outputs_compared', len(a))
    bad = diff(a, b)
    if bad:
        # exclude differences that fresh objects show among themselves
        for rep in range(4):
            pad = [np.zeros(int(rng.integers(1, 9)) * 8 + 1, np.uint8) for _ in range(5)]
            g = gen.mk_gp(sc, cls)
            setup(g, w, gen.mk_hp(g, sc.hp))
            c = results(w, g, sc, P, vec, hp2)
            und = set(diff(c, b))
            bad = [k for k in bad if k not in und]
            del pad
        if bad:
            ctx.violation('differs:%s:%s' % (sc.weff, bad[0]), dict(names=bad[:8], past=st['past'], used=short(a[bad[0]]), fresh=short(b[bad[0]])), info=inf)
        else:
            ctx.count('nondeterministic_arithmetic')
    single(ctx, rng, fresh, sc, P, b, inf)
    # functions that must not touch their arguments
    pure(ctx, w, rng)
    ctx.nontrivial(sc.cls() + tuple(sorted(set(st['past']))))
    ctx.sample(dict(scenario=inf, past=st['past'], outputs=len(a), mu=short(a['eval_model'])))


def same_vector(ctx, w, rng, gp, sc, arrs, hp):
    """the vector that is evaluated later, evaluated with slightly different data of the same size just before"""
    X, f, sf, g, sg, bv = [gen.cp(a) for a in arrs]
    k = str(rng.choice(['f', 'X', 'g', 'sf', 'f']))
    if k == 'X':
        X = X * rng.uniform(0.5, 1.5) + 0.01 * np.std(X) * rng.standard_normal(X.shape)
    elif k == 'g' and g is not None and g.size:
        g = g + np.max(np.abs(g)) * rng.standard_normal(g.shape)
    elif k == 'sf' and sf is not None and np.max(sf, initial=0) > 1e-9:
        sf = sf * rng.uniform(0.3, 3)
    else:
        f = f + (np.max(np.abs(f)) + 1e-3) * rng.standard_normal(f.shape)
    w.opt('set_data', gp.set_data, X, f, sf, g, sg, bv)
    try:
        v = mkvec(gp.hp_info_optz_lkd, hp, None)
    except Exception:       # noqa
        return
    for fn in rng.permutation(['return_optz_val', 'return_optz_grad', 'return_cond_val', 'return_cond_grad']):
        if rng.random() < 0.7:
            w.opt(str(fn), getattr(gp, str(fn)), v)
    ctx.count('same_vector')


def pure(ctx, w, rng):
    """kernel, distance, rescaling and summary functions: arguments untouched, repeated calls equal"""
    def twice(name, fn, *a, **kw):
        r = copy.deepcopy(w.call(name, fn, *a, **kw))
        ctx.count('pure_calls')
        if not same(r, w.call(name, fn, *a, **kw)):
            ctx.violation('repeat_differs:' + name, None, info=w.inf)
        return r
    c = gen.kcase(rng, alpha_types=('float', 'array'))
    g = gen.kgp(c)
    kw = dict(bvec_use_grad1=c.m1, bvec_use_grad2=c.m2) if c.grad else {}
    twice('calc_KernBase', g.calc_KernBase, c.R, c.theta, c.al_arg)
    twice('calc_KernGrad', g.calc_KernGrad, c.R, c.theta, c.al_arg, **kw)
    twice('calc_Rtensor', g.calc_Rtensor, c.X, c.Y, int(rng.choice([1, 2])))
    twice('calc_dist_min', g.calc_dist_min, c.X)
    twice('calc_dist_max', g.calc_dist_max, c.X)
    twice('theta2gamma', g.theta2gamma, c.theta)
    twice('gamma2theta', g.gamma2theta, c.theta)
    twice('calc_Kern_precon', g.calc_Kern_precon, c.n1, 1, c.theta, calc_grad=True)
    from gpgradpy.results.PltOptzResults import PltOptzResults as PR
    v = rng.standard_normal(8)
    v[rng.random(8) < 0.2] = np.nan
    twice('best_at_all_iter', PR.best_at_all_iter, v, str(rng.choice(['min', 'max'])))
    from gpgradpy.src.base.Rescaling import Rescaling
    n, d = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    X = rng.standard_normal((n, d))
    f, sf, G, sG = rng.standard_normal(n), rng.random(n), rng.standard_normal((n, d)), rng.random((n, d))
    own = [X, f, sf, G, sG]
    S = w.call('Rescaling', Rescaling, X, None, bool(rng.random() < 0.5), str(rng.choice(['set_vmin', 'set_vmax'])), float(10 ** rng.uniform(-1, 1)))
    w.call('set_obj_data', S.set_obj_data, f, sf, G, sG)
    C = rng.standard_normal((n, 2))
    sC, gC, sgC = rng.random((n, 2)), rng.standard_normal((n, 2, d)), rng.random((n, 2, d))
    lb, ub = np.full(d, -2.0), np.full(d, 2.0)
    A, la, ua = rng.standard_normal((2, d)), -np.ones(2), np.ones(2)
    w.opt('set_nlc_data', S.set_nlc_data, C, sC, gC, sgC)
    w.opt('set_boxcon', S.set_boxcon, lb, ub)
    w.opt('set_lincon', S.set_lincon, A, la, ua)
    w2 = Watch(ctx, w.inf)
    w2.keep(*own, C, sC, gC, sgC, lb, ub, A, la, ua)
    Z = rng.standard_normal((3, d))
    sv = 10.0 ** rng.uniform(-1, 1, d)
    for _ in range(2):
        w2.call('x_init_2_scl', S.x_init_2_scl, Z)
        w2.call('x_scl_2_init', S.x_scl_2_init, Z)
        w2.call('obj_init_2_scl', S.obj_init_2_scl, f, sf, G, sG)
        w2.call('obj_scl_2_init', S.obj_scl_2_init, f, sf, G, sG)
        w2.opt('nlc_init_2_scl', S.nlc_init_2_scl, C, sC, gC, sgC)
        w2.opt('nlc_scl_2_init', S.nlc_scl_2_init, C, sC, gC, sgC)
        w2.call('boxcon_init_2_scl', S.boxcon_init_2_scl, lb, ub)
        w2.call('lincon_init_2_scl', S.lincon_init_2_scl, A, la, ua)
        w2.call('set_xscale_data', S.set_xscale_data, Z[0], sv)
    ctx.count('pure_calls', 18)


def short(v):
    return repr(v)[:200]


def mkvec(ip, hp, flags):
    v = np.full(ip.n_hp, np.nan)
    for nm, idx, val in (('theta', ip.idx_theta, hp['theta']), ('kernel', ip.idx_kernel, hp['kernel']), ('varK', ip.idx_varK, hp['varK']),
                         ('var_fval', ip.idx_var_fval, hp['var_fval']), ('var_fgrad', ip.idx_var_fgrad, hp['var_fgrad'])):
        if np.size(idx):
            v[idx] = np.ravel(np.asarray(val, float)) if np.ndim(v[idx]) else float(np.ravel(val)[0])
    b = np.asarray(ip.bvec_log_optz, bool)
    v[b] = np.log10(v[b])
    return v


def past(ctx, w, rng, gp, sc, st, op, opts):
    def other(ob=None, wc=None):
        o = gen.gen(rng, kernels=[sc.kernel], use_grad=sc.use_grad, wcs=[wc or sc.wc], dmin=sc.dim, dmax=sc.dim, nmax=6, ndata_max=20, opts=dict(sc.opts), eta_const=1.0,
                    alpha_types=('float', 'array'))
        o.wc = wc or sc.wc
        return o

    def ready(o=None):
        if st['cur'] is None or o is not None or rng.random() < 0.5:
            o = o or other()
            a = [gen.cp(x) for x in (o.X, o.f, o.sf, o.g, o.sg, o.bvec)]
            w.opt('set_data', gp.set_data, *a)
            w.keep(*a)
            st['cur'] = o
        return st['cur']
    if op == 'data':
        ready(other())
        if rng.random() < 0.3:
            gp._last_hp_vec = None if rng.random() < 0.5 else gp._last_hp_vec
    elif op in ('eval', 'lkd', 'vec'):
        o = ready()
        hp = gen.mk_hp(gp, o.hp)
        if op == 'eval':
            w.opt('set_hpara', gp.set_hpara, 'set', 0, hp, bool(rng.random() < 0.5))
            w.keep(hp)
            Pp = gen.eval_points(rng, o, 2)
            w.opt('eval_model', gp.eval_model, Pp, calc_grad=True)
            w.opt('eval_model', gp.eval_model, Pp[:1], calc_grad=True, calc_hess=True)
            w.opt('eval_model_var', gp.eval_model_var, Pp)
        elif op == 'lkd':
            w.opt('calc_lkd_all', gp.calc_lkd_all, hp, calc_cond=True, calc_grad=True)
        else:
            ip = gp.hp_info_optz_lkd
            v = mkvec(ip, o.hp, None)
            for fn in (gp.return_optz_val, gp.return_optz_grad, gp.return_cond_val, gp.return_cond_grad):
                if rng.random() < 0.6:
                    w.opt(fn.__name__, fn, v)
    elif op in ('store', 'stored', 'load', 'optz'):
        o = ready()
        if not hasattr(gp, 'hp_theta_all') or gp.hp_theta_all is None or rng.random() < 0.15:
            gp.init_optz_surr(4)
            st['rows'] = 0
        hp = gen.mk_hp(gp, o.hp)
        if op == 'store' or st['rows'] == 0:
            w.opt('store_new_para_surr', gp.store_new_para_surr, st['rows'] % 4, hp)
            w.keep(hp)
            st['rows'] += 1
        if op == 'stored':
            w.opt('set_hpara', gp.set_hpara, 'stored', int(rng.integers(min(st['rows'], 4))))
        elif op == 'load':
            d = w.opt('export', gp.export_data_surr, save2file=False)
            if d is not None:
                d = {k: np.array(v, copy=True) for k, v in d.items()}
                w.keep(d)
                w.opt('load_data_surr', gp.load_data_surr, d)
                if rng.random() < 0.5:
                    gp.init_optz_surr(4)
                    st['rows'] = 0
        elif op == 'optz':
            if rng.random() < 0.25 and o.n >= 2 and 0 < st['rows']:
                gp.hp_const_n_eval, gp.optz_iter_max, gp.lkd_hp_best_n_eval, gp.optz_n_x0 = 1, 3, 4, 1
                w.opt('set_hpara', gp.set_hpara, 'optz', min(st['rows'], 3))
                for k in ('optz_iter_max', 'lkd_hp_best_n_eval', 'optz_n_x0'):
                    gp.__dict__.pop(k, None)
            else:
                gp.hp_const_n_eval = 10 ** 6
                w.opt('set_hpara', gp.set_hpara, 'optz', min(st['rows'], 3))
            if 'hp_const_n_eval' not in sc.opts:
                gp.__dict__.pop('hp_const_n_eval', None)
    elif op == 'opts':
        gp.cond_max_target = float(10 ** rng.uniform(3, 12))
        gp.cond_eta_set_mtd = str(rng.choice(['Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta']))
        gp.cond_norm = 'fro' if rng.random() < 0.5 else 2
        gp.lkd_use_adj_mtd = bool(rng.random() < 0.5)
        gp.optz_log_hp_theta = bool(rng.random() < 0.5)
        gp.optz_log_hp_var = bool(rng.random() < 0.5)
        o = ready(other())
        w.opt('set_hpara', gp.set_hpara, 'set', 0, gen.mk_hp(gp, o.hp), True)
        w.opt('calc_lkd_all', gp.calc_lkd_all, gen.mk_hp(gp, o.hp), calc_cond=True, calc_grad=True)
    elif op == 'reject':
        o = other()
        if rng.random() < 0.5:
            w.opt('set_data', gp.set_data, o.X, o.f, None if o.sf is None else np.append(o.sf, 0.1), gen.cp(o.g), gen.cp(o.sg), gen.cp(o.bvec))
        else:
            w.opt('set_data', gp.set_data, np.hstack((o.X, o.X)), gen.cp(o.f), gen.cp(o.sf), gen.cp(o.g), gen.cp(o.sg), gen.cp(o.bvec))
        st['cur'] = None
    elif op == 'other':
        # another object of the class, other options, other data
        o = gen.gen(rng, nmax=5, dmax=3, ndata_max=15)
        if not o.use_grad and o.wc in gen.SCALED:
            o.wc = 'base'
        g2 = gen.mk_gp(o)
        for k, v in (('cond_eta_set_mtd', 'dflt_eta'), ('cond_norm', 'fro'), ('lkd_use_adj_mtd', False), ('optz_log_hp_theta', False), ('hp_const_n_eval', 99), ('cond_max_target', 1e4)):
            if rng.random() < 0.5:
                setattr(g2, k, v)
        w.opt('set_data', gen.put_data, g2, o)
        w.opt('set_hpara', g2.set_hpara, 'set', 0, gen.mk_hp(g2, o.hp))
        w.opt('eval_model', g2.eval_model, gen.eval_points(rng, o, 2), calc_grad=True)
        w.opt('calc_lkd_all', g2.calc_lkd_all, gen.mk_hp(g2, o.hp), calc_grad=True)
        g2.init_optz_surr(3)
        w.opt('store_new_para_surr', g2.store_new_para_surr, 1, gen.mk_hp(g2, o.hp))
    elif op == 'scale':
        ready()
        if gp.b_use_data_scl and hasattr(gp, 'DataScl'):
            sv = 10.0 ** rng.uniform(-1, 1, sc.dim)
            w.opt('set_xscale_data', gp.DataScl.set_xscale_data, None, sv)
            w.keep(sv)
    elif op == 'info':
        ready()
        if hasattr(gp, 'hp_theta_all') and gp.hp_theta_all is not None:
            w.opt('get_txt_info_surr', gp.get_txt_info_surr, print2screen=False)


def single(ctx, rng, gp, sc, P, b, inf):
    """batches, single points, squeeze_nx, flags"""
    M, wk = gen.ref_model(sc, float(gp.etaK_eval), gp=gp)
    if gp.KernEta_chofac is None:
        return
    try:
        want, tol = gen.ref_predict(M, wk, P, grad=True)
    except ref.NotPD:
        return
    if tol is None or float(np.max(tol['sig2'])) > 1e-3 * float(M.varK / wk['osc'] ** 2):
        return
    bt = b['eval_model_g']
    if bt[0] == 'raised' if isinstance(bt[0], str) else False:
        return
    f = '%s:%s' % (sc.weff, 'grad' if sc.use_grad else 'nograd')
    try:
        one = [gp.eval_model(P[i:i + 1], calc_grad=True) for i in range(len(P))]
        v1 = [gp.eval_model(P[i], calc_grad=True, squeeze_nx=True) for i in range(len(P))]
        nog = gp.eval_model(P)
    except AssertionError:
        ctx.count('skipped_rounding_variance')
        return
    ctx.count('batch_vs_single')

    def cmp(name, o):
        mu, sg, dm, ds = [np.asarray(x) for x in o[:4]]
        ctx.close(name, mu, bt[0], 2 * tol['mu'], '%s:mu:%s' % (name, f), info=inf)
        ctx.close(name, sg ** 2, np.asarray(bt[1]) ** 2, 2 * tol['sig2'], '%s:sig:%s' % (name, f), info=inf)
        if dm.ndim:
            ctx.close(name, dm, bt[2], 2 * tol['dmu'], '%s:dmudx:%s' % (name, f), info=inf)
            ctx.close(name, 2 * sg[:, None] * ds, 2 * np.asarray(bt[1])[:, None] * bt[3], 2 * tol['dsig2'], '%s:dsigdx:%s' % (name, f), info=inf)
    cmp('single', [np.concatenate([o[k] for o in one]) for k in range(4)])
    cmp('no_grad', list(nog[:2]) + [np.float64(0), np.float64(0)])
    if any(x is not None for x in nog[2:]):
        ctx.violation('no_grad:returned_gradient', None, info=inf)
    if rng.random() < 0.3:
        # large batches: every row equals the prediction of its point
        N = int(rng.choice([17, 33, 64, 100, 129, 256, 500, 513, 1000, 1025, 2049]))
        k = rng.integers(0, len(P), N)
        try:
            big = gp.eval_model(P[k], calc_grad=True)
            bgn = gp.eval_model(P[k])
        except AssertionError:
            ctx.count('skipped_rounding_variance')
            return
        ctx.count('large_batch')
        if [np.shape(x) for x in big[:4]] != [(N,), (N,), (N, sc.dim), (N, sc.dim)]:
            ctx.violation('large_batch:shape', dict(N=N, shapes=[np.shape(x) for x in big[:4]]), info=inf)
        else:
            t2 = {q: np.asarray(tol[q])[k] for q in ('mu', 'sig2', 'dmu', 'dsig2')}
            for nm, o in (('large_batch', big), ('large_batch_no_grad', bgn)):
                ctx.close(nm, np.asarray(o[0]), np.asarray(bt[0])[k], 2 * t2['mu'], '%s:mu:%s' % (nm, f), info=inf)
                ctx.close(nm, np.asarray(o[1]) ** 2, np.asarray(bt[1])[k] ** 2, 2 * t2['sig2'], '%s:sig:%s' % (nm, f), info=inf)
            ctx.close('large_batch', big[2], np.asarray(bt[2])[k], 2 * t2['dmu'], 'large_batch:dmudx:' + f, info=inf)
            ctx.close('large_batch', 2 * np.asarray(big[1])[:, None] * big[3], 2 * np.asarray(bt[1])[k][:, None] * np.asarray(bt[3])[k], 2 * t2['dsig2'],
                      'large_batch:dsigdx:' + f, info=inf)
    # squeeze only drops the leading axis
    for i, (o, v) in enumerate(zip(one, v1)):
        ctx.count('squeeze')
        for k in range(4):
            if np.shape(v[k]) != np.shape(o[k])[1:] or not np.array_equal(np.asarray(v[k]), np.asarray(o[k])[0], equal_nan=True):
                ctx.violation('squeeze:%d' % k, dict(shape=np.shape(v[k]), full=np.shape(o[k])), info=inf)
    h = b['eval_model_h']
    if not (isinstance(h[0], str)):
        ctx.count('hess')
        if np.shape(h[4]) != (sc.dim, sc.dim) or np.shape(h[5]) != (sc.dim, sc.dim) or np.shape(h[2]) != (sc.dim,):
            ctx.violation('squeeze:hess_shape', dict(shapes=[np.shape(x) for x in h]), info=inf)
        elif not all(np.array_equal(np.asarray(h[k]), np.asarray(one[0][k])[0], equal_nan=True) for k in range(4)):
            ctx.violation('calc_hess_changes_values', None, info=inf)
    if not gp.b_use_data_scl:
        v = b['eval_model_var']
        if not isinstance(v[0], str):
            ctx.close('var_vs_sig', v[0], np.asarray(bt[1]) ** 2, 2 * tol['sig2'], 'eval_model_var:' + f, info=inf)
            ctx.close('var_vs_sig', v[1], 2 * np.asarray(bt[1])[:, None] * bt[3], 2 * tol['dsig2'], 'eval_model_var:dsig2dx:' + f, info=inf)

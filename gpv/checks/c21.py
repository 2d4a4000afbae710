"""C21: the example scripts (gpgradpy/plt, gpgradpy/results) draw what the package computes."""
import ast
import contextlib
import io
import os
import re
import shutil
import sys
import traceback
import warnings
import numpy as np
from .. import core, gen, ref
from ..ref import LD, ld
from .c20 import bands, in_band, lines, ref_best, series

RULE = ('case = one example script of the package run with random values of its option block (kernel, gradients, number of points, theta, ranges, which figures) in a scratch directory; '
        'the recorder around the calls of GaussianProcess gives the data and hyperparameters the script used, and every curve, band, marker, contour and axis label of the figures is '
        'read back and compared with an independent evaluation at the coordinates drawn; class = (script, options)')
ASSUMPTIONS = ['figures are read back as matplotlib artists (Agg backend, text.usetex off, low resolution)', 'the data directory of the paper is replaced by generated results of the same layout']
SCRIPTS = ['plt_acq', 'plt_surr_1d', 'plt_nugget_1d', 'plt_cond', 'plt_kern_corr', 'optz_paper_precon']


def shards(tier):
    k, n = (8, 14) if tier == 'quick' else (16, 240)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'run:' + s: 8 for s in SCRIPTS} | {'mean': 40, 'band': 40, 'acq_curve': 20, 'lkd_curve': 10, 'nugget_curve': 40, 'cond_curve': 8, 'contour_cond': 12, 'contour_lkd': 12, 'kern_corr': 40,
                                               'paper_lines': 100, 'data': 40,
                                               'ei': 4, 'fun_helpers': 40}


def run(ctx):
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    for i, rng in ctx.cases(ctx.shard['n']):
        name = SCRIPTS[(i + int(ctx.shard['name'][1:])) % len(SCRIPTS)]
        d = os.path.join(os.getcwd(), f'c{i}')
        os.makedirs(d)
        old = os.getcwd()
        try:
            os.chdir(d)
            globals()[name](ctx, rng, plt)
        finally:
            os.chdir(old)
            shutil.rmtree(d)
            plt.close('all')


# ------------------------------------------------------------------ running a script
class Rec:
    """what the script asked of the package"""

    def __init__(self):
        self.gps, self.saved, self.contours = [], [], []


class Knobs(ast.NodeTransformer):
    def __init__(self, knobs, ifs):
        self.knobs, self.ifs, self.used, self.k = dict(knobs), ifs, set(), 0

    def run(self, tree):
        for st in tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                n = st.targets[0].id
                if n in self.knobs and n not in self.used:
                    self.used.add(n)
                    st.value = ast.parse(self.knobs[n], mode='eval').body
            if self.ifs is not None and isinstance(st, ast.If) and isinstance(st.test, ast.Constant) and isinstance(st.test.value, bool):
                st.test = ast.Constant(bool(self.ifs[self.k % len(self.ifs)]))
                self.k += 1
        return ast.fix_missing_locations(tree)


@contextlib.contextmanager
def recorder(rec, plt):
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    from matplotlib.axes import Axes
    from matplotlib.figure import Figure
    o = {k: getattr(GP, k) for k in ('__init__', 'set_data', 'calc_lkd_all', 'setup_eval_model')}
    c, cf, sv, up = Axes.contour, Axes.contourf, Figure.savefig, plt.rcParams.update

    def init(self, *a, **kw):
        o['__init__'](self, *a, **kw)
        q = dict(zip(('dim', 'use_grad', 'kernel_type', 'wellcond_mtd'), a))
        q.update(kw)
        self._v = dict(args=q, lkd=[], model=[], data=None)
        rec.gps.append((self, self._v))

    def set_data(self, *a, **kw):
        r = o['set_data'](self, *a, **kw)
        q = dict(zip(('X', 'f', 'sf', 'g', 'sg', 'bvec'), a))
        q.update({dict(x='X', fval='f').get(k, k): v for k, v in kw.items()})
        self._v['data'] = {k: None if v is None else np.array(v) for k, v in q.items()}
        return r

    def lkd(self, hp, *a, **kw):
        th = np.array(hp.theta, float).copy()
        al, vk = hp.kernel, hp.varK
        r = o['calc_lkd_all'](self, hp, *a, **kw)
        self._v['lkd'].append(dict(theta=th, kernel=al, varK=vk, ln=None if r[0].ln_lkd is None else float(np.ravel(r[0].ln_lkd)[0]),
                                   cond=None if r[0].cond is None else float(r[0].cond), good=bool(r[1])))
        return r

    def setup(self, *a, **kw):
        r = o['setup_eval_model'](self, *a, **kw)
        h = self.hp_vals
        self._v['model'].append(dict(beta=np.array(h.beta, float).ravel().copy(), theta=np.array(h.theta, float).copy(), kernel=h.kernel, varK=float(np.ravel(h.varK)[0]),
                                     var_fval=h.var_fval, var_fgrad=h.var_fgrad, eta=float(self.etaK_eval) if getattr(self, 'etaK_eval', None) is not None else None))
        return r

    def contourf(self, *a, **kw):
        rec.contours.append(('f', self, [np.array(v) for v in a], kw))
        return cf(self, *a, **kw)

    def contour(self, *a, **kw):
        rec.contours.append(('l', self, [np.array(v) for v in a], kw))
        return c(self, *a, **kw)

    def savefig(self, name, *a, **kw):
        rec.saved.append((self, str(name), {id(x): (x.get_xlim(), x.get_ylim()) for x in self.axes}))
        kw['dpi'] = 20
        return sv(self, name, *a, **kw)

    def update(*a, **kw):
        a = [({k: v for k, v in x.items() if not k.startswith('text.')} if isinstance(x, dict) else x) for x in a]
        return up(*a, **kw)
    new = {'__init__': init, 'set_data': set_data, 'calc_lkd_all': lkd, 'setup_eval_model': setup}
    try:
        for k, v in new.items():
            setattr(GP, k, v)
        Axes.contourf, Axes.contour, Figure.savefig = contourf, contour, savefig
        plt.rcParams.update = update
        yield
    finally:
        for k in new:
            if k in o and o[k].__qualname__.startswith('GaussianProcess.'):
                setattr(GP, k, o[k])
            else:
                delattr(GP, k)
        Axes.contourf, Axes.contour, Figure.savefig = cf, c, sv
        del plt.rcParams.update


def script(ctx, plt, name, knobs, ifs=None, sub='plt', inf=None):
    """runs the script in the current directory; returns (namespace, recorder, figures) or None"""
    path = os.path.join(core.REPO, 'gpgradpy', sub, name + '.py')
    src = open(path, encoding='utf8').read()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src)
        kn = Knobs(knobs, ifs)
        code = compile(kn.run(tree), path, 'exec')
    ctx.count('knobs_set', len(kn.used))
    ctx.count('knobs_missing', len(knobs) - len(kn.used))
    rec, ns = Rec(), {'__name__': '__main__', '__file__': path}
    mods = set(sys.modules)
    sys.path.insert(0, os.path.dirname(path))
    plt.close('all')
    try:
        with recorder(rec, plt), contextlib.redirect_stdout(io.StringIO()):
            exec(code, ns)
    except Exception as e:       # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.basename(t.filename)}:{t.lineno}' for t in tb if '/gpgradpy/' in t.filename]
        ctx.violation('%s:exc:%s' % (name, type(e).__name__), dict(error=str(e)[:300], where=where[-3:]), info=inf)
        return None
    finally:
        sys.path.pop(0)
        for m in set(sys.modules) - mods:
            if m in ('SurrPlt', 'PltOptzResults'):
                del sys.modules[m]
    ctx.count('run:' + name)
    for _, p, _ in rec.saved:
        ctx.count('saved')
        if not os.path.isfile(p) or open(p, 'rb').read(4) != b'\x89PNG':
            ctx.violation(name + ':figure not written', dict(path=p), info=inf)
    figs = [plt.figure(k) for k in plt.get_fignums()]
    return ns, rec, figs, kn


# ------------------------------------------------------------------ reference of the model a script used
def scen(gp, v, hp):
    a, q = v['args'], v['data']
    ug = bool(a.get('use_grad', True))
    wc = a.get('wellcond_mtd', 'precon') or 'base'
    if not ug:
        wc = 'base'
    n, dim = q['X'].shape
    ng = n if ug else 0
    return gen.Sc(kernel=a.get('kernel_type', 'SqExp'), wc=wc, weff=wc, use_grad=ug, dim=dim, n=n, ng=ng, X=q['X'], f=q['f'], g=q.get('g'), bvec=None, noise='known', sf=q['sf'],
                  sg=q.get('sg'), unk_f=False, unk_g=False, opts=dict(cond_max_target=gp.cond_max_target, cond_eta_is_const=bool(gp.cond_eta_is_const), cond_eta_set_mtd=gp.cond_eta_set_mtd),
                  scl=np.ones(dim), amp=1.0, hp=hp)


def fun1(x):
    return np.sin(x) + np.sin(10 * x / 3)


def dfun1(x):
    return np.cos(x) + 10 / 3 * np.cos(10 * x / 3)


def rosen(x):
    x = ld(x)
    return np.sum(10 * (x[:, 1:] - x[:, :-1] ** 2) ** 2 + (1 - x[:, :-1]) ** 2, axis=1)


def drosen(x):
    x = ld(x)
    g = np.zeros_like(x)
    r = x[:, 1:] - x[:, :-1] ** 2
    g[:, :-1] += -40 * x[:, :-1] * r - 2 * (1 - x[:, :-1])
    g[:, 1:] += 20 * r
    return g


def data_ok(ctx, v, f, df, sig, inf):
    """the observations are exact values and gradients of the function of the script"""
    q = v['data']
    ctx.count('data')
    ctx.close('obs', q['f'], f(q['X']), 1e-12 * (1 + np.abs(f(q['X']))), sig + ':observed values', info=inf)
    if v['args'].get('use_grad', True):
        w = df(q['X'])
        ctx.close('obs_grad', q['g'], w, 1e-11 * (1 + np.abs(w)), sig + ':observed gradients', info=inf)


def helpers(ctx, rng, ns, inf):
    """functions defined by a script are the ones they are named after"""
    f = ns.get('calc_acq_exp_improvement')
    if callable(f):
        from scipy.special import ndtr
        m, s, b = rng.normal(0, 2, 6), 10.0 ** rng.uniform(-2, 1, 6), float(rng.normal())
        z = (b - m) / s
        ctx.count('ei')
        ctx.close('ei', f(m, s, b), -((b - m) * ndtr(z) + s * np.exp(-z ** 2 / 2) / np.sqrt(2 * np.pi)), 1e-10 * (s + np.abs(b - m)), 'helper:expected improvement', info=inf)
    f = ns.get('calc_acq_upper_conf')
    if callable(f):
        m, s, b = rng.normal(0, 2, 6), 10.0 ** rng.uniform(-2, 1, 6), float(rng.uniform(0, 4))
        ctx.close('ucb', f(m, s, b), m - b * s, 1e-12 * (np.abs(m) + b * s), 'helper:confidence bound', info=inf)
    f, g = ns.get('calc_obj'), ns.get('calc_grad')
    if callable(f) and callable(g):
        one = '1d' in inf['script'] and 'nugget' not in inf['script'] or inf['script'] == 'plt_acq'
        x = rng.uniform(-2, 3, (5, 1 if one else int(rng.integers(2, 6))))
        w, d = (fun1(x[:, 0]), dfun1(x)) if one else (rosen(x), drosen(x))
        ctx.count('fun_helpers')
        ctx.close('fun_h', f(x), w, 1e-12 * (1 + np.abs(w)), 'helper:function', info=inf)
        ctx.close('grad_h', g(x), d, 1e-11 * (1 + np.max(np.abs(d))), 'helper:gradient', info=inf)


def mle(sc, gp):
    """closed-form beta and varK of the likelihood"""
    from ..lk import Lk
    lk = Lk(sc, gp)
    return lk, lk.with_tol()


def surr_axes(ctx, ax, gp, v, hp, sig, inf, fexa):
    """figure of a surrogate: mean, +/- n sigma, function and data; returns what was drawn"""
    sc = scen(gp, v, dict(hp, kernel=hp['kernel']))
    L = {}
    for x, y, l in lines(ax):
        L.setdefault(str(l.get_label()), []).append((x, y, l))
    mean = L.get(r'$\mu_f$', [])
    if len(mean) != 1:
        ctx.violation(sig + ':no mean curve', dict(labels=list(L)), info=inf)
        return None
    x, mu = mean[0][:2]
    pick = np.unique(np.linspace(0, x.size - 1, 9).astype(int))
    if hp['eta'] is None:
        ctx.count('no_nugget')
        return None
    M, wk = gen.ref_model(sc, hp['eta'])
    try:
        base, tol = gen.ref_predict(M, wk, x[pick, None], grad=False)
    except ref.NotPD:
        base, tol = None, None
    if tol is None or not np.all(tol['mu'] < 1e-3) or not np.all(tol['sig2'] < 1e-3 * max(1.0, hp['varK'])):
        ctx.count('skipped_illcond')
        return x, mu, None
    ctx.count('mean')
    ctx.close('mean', mu[pick], base['mu'], tol['mu'] + 1e-12, sig + ':mean', info=inf)
    lab = [str(c.get_label()) for c in ax.collections]
    m = [re.match(r'\$\\pm ([0-9.]+) \\sigma_f\$', t) for t in lab]
    m = [t for t in m if t]
    if len(m) != 1:
        ctx.violation(sig + ':no band', dict(labels=lab), info=inf)
        return None
    ns = float(m[0].group(1))
    s2 = np.maximum(base['sig2'].astype(float), 0)
    hit = {}
    for xx, yy, l in lines(ax):
        if xx.shape != x.shape or not np.array_equal(xx, x):
            continue
        q = (yy - mu)[pick] / ns
        for sgn in (-1, 1):
            if np.all(np.abs(q ** 2 - s2) <= tol['sig2'] + 1e-9 * s2 + 1e-13 * (1 + np.abs(mu[pick]))) and np.all(sgn * (yy - mu) >= -1e-9 * (1 + np.abs(mu))) and np.max(np.abs(yy - mu)) > 0:
                hit[sgn] = yy
    ctx.count('band')
    if len(hit) < 2:
        ctx.violation(sig + ':band is not mean +/- %g sigma' % ns, dict(found=list(hit), s2=s2[:4]), info=inf)
        return None
    in_band(ctx, ax, x, hit[-1], hit[1], sig + ':filled band', inf, 1e-9 * (1 + np.max(np.abs(np.r_[x, hit[1], hit[-1]]))))
    fx = L.get(r'$f(x)$', [])
    if len(fx) != 1 or not np.allclose(fx[0][1], fexa(fx[0][0]), rtol=0, atol=1e-12):
        ctx.violation(sig + ':exact function', dict(n=len(fx)), info=inf)
    q = v['data']
    if not any(xx.shape == q['X'][:, 0].shape and np.array_equal(xx, q['X'][:, 0]) and np.array_equal(yy, q['f']) and l.get_marker() not in ('None', None, '') for xx, yy, l in lines(ax)):
        ctx.violation(sig + ':data points', None, info=inf)
    return x, mu, (hit[1] - mu) / ns


def hp_is_mle(ctx, gp, v, hp, sig, inf):
    sc = scen(gp, v, dict(hp))
    try:
        lk, (base, tol) = mle(sc, gp)
    except ref.NotPD:
        ctx.count('skipped_singular')
        return
    if not tol['beta'] < 1e-2 or not tol['varK'] < 1e-2 * base['varK']:
        ctx.count('skipped_illcond')
        return
    ctx.close('beta', hp['beta'][0], base['beta'], tol['beta'], sig + ':beta', info=inf)
    ctx.close('varK', hp['varK'], base['varK'], tol['varK'], sig + ':varK', info=inf)


# ------------------------------------------------------------------ scripts
def plt_acq(ctx, rng, plt):
    n = int(rng.integers(2, 7))
    x = np.sort(rng.uniform(2.2, 7.8, n))
    if n > 1 and np.min(np.diff(x)) < 0.25:
        x = np.linspace(2.5, 7.4, n)
    ug = bool(rng.random() < 0.7)
    kern = str(rng.choice(['SqExp', 'Ma5f2', 'SqExp']))
    kn = dict(x_eval='np.array(%r)[:,None]' % ([float(v) for v in x],), use_grad=str(ug), kernel_type=repr(kern), wellcond_mtd=repr('precon' if ug and rng.random() < 0.7 else 'base'),
              theta_vec='np.array([%r])' % float(10 ** rng.uniform(-0.7, 1)), n_exa=str(int(rng.integers(30, 120))), n_sig=str(int(rng.integers(1, 4))), save_fig=str(bool(rng.random() < 0.7)))
    if rng.random() < 0.3:
        kn = {k: v for k, v in kn.items() if k == 'n_exa'}
    inf = dict(script='plt_acq', knobs=kn)
    r = script(ctx, plt, 'plt_acq', kn, inf=inf)
    if r is None:
        return
    ns, rec, figs, k = r
    helpers(ctx, rng, ns, inf)
    ctx.nontrivial(('acq', ug, kern, n, tuple(sorted(kn))))
    if not rec.gps or not figs or len(figs[0].axes) < 2:
        ctx.violation('acq:nothing drawn', None, info=inf)
        return
    gp, v = rec.gps[-1]
    data_ok(ctx, v, lambda x: fun1(x[:, 0]), lambda x: dfun1(x), 'acq', inf)
    hp = v['model'][-1]
    hp_is_mle(ctx, gp, v, hp, 'acq', inf)
    a0, a1 = figs[0].axes[:2]
    o = surr_axes(ctx, a0, gp, v, hp, 'acq', inf, fun1)
    if 'n_sig' in k.used and o is not None:
        ctx.count('n_sig')
        if not any('pm %s ' % kn['n_sig'] in str(c.get_label()) for c in a0.collections):
            ctx.violation('acq:width of the band is not the requested one', dict(labels=[str(c.get_label()) for c in a0.collections]), info=inf)
    if o is None or o[2] is None:
        return
    x, mu, sig = o
    seen = 0
    for xx, yy, l in lines(a1):
        lab = str(l.get_label())
        t = lab.replace('min(', '').rstrip(')') if lab.startswith('min(') else lab
        m = re.match(r'\$\\mu_f( - ([0-9.]+) \\sigma_f)?\$$', t)
        if not m:
            ctx.violation('acq:unknown curve', dict(label=lab), info=inf)
            continue
        w = mu - (float(m.group(2)) if m.group(2) else 0.0) * sig
        w = (w - w.min()) / (w.max() - w.min())
        if lab.startswith('min('):
            kk = int(np.argmin(w))
            if not (np.allclose(xx, x[kk], atol=1e-12) and np.allclose(yy, 0, atol=1e-7)):
                ctx.violation('acq:minimum', dict(got=(xx, yy), want=x[kk]), info=inf)
        else:
            seen += 1
            ctx.count('acq_curve')
            ctx.close('acq', yy, w, 1e-6, 'acq:curve', info=dict(inf, label=lab))
    if seen != 2:
        ctx.violation('acq:number of curves', dict(got=seen), info=inf)


def plt_surr_1d(ctx, rng, plt):
    ug = bool(rng.random() < 0.5)
    kern = str(rng.choice(['SqExp', 'SqExp', 'Ma5f2']))
    n = int(rng.integers(3, 7))
    lo, hi = float(10 ** rng.uniform(-1, 0)), float(10 ** rng.uniform(1, 2.5))
    kn = dict(use_grad=str(ug), kernel_type=repr(kern), n_eval=str(n), n_theta=str(int(rng.integers(64, 110))), n_exa=str(int(rng.integers(30, 80))), save_fig=str(bool(rng.random() < 0.4)),
              range_gamma='np.array([%r, %r])' % (lo, hi), n_sig=str(int(rng.integers(1, 4))), plt_gamma_val=str(bool(rng.random() < 0.5)))
    if rng.random() < 0.3:
        kn = {k: v for k, v in kn.items() if k in ('n_exa', 'use_grad', 'save_fig')}
    inf = dict(script='plt_surr_1d', knobs=kn)
    r = script(ctx, plt, 'plt_surr_1d', kn, inf=inf)
    if r is None:
        return
    ns, rec, figs, k = r
    helpers(ctx, rng, ns, inf)
    ctx.nontrivial(('surr_1d', ug, kern, n, tuple(sorted(kn))))
    if not rec.gps or len(figs) < 2:
        ctx.violation('surr_1d:nothing drawn', None, info=inf)
        return
    gp, v = rec.gps[-1]
    data_ok(ctx, v, lambda x: fun1(x[:, 0]), lambda x: dfun1(x), 'surr_1d', inf)
    ax = figs[0].axes[0]
    L = lines(ax)
    curve = [(x, y) for x, y, l in L if x.size > 5]
    marks = [(float(x[0]), float(y[0]), l.get_color()) for x, y, l in L if x.size == 1]
    if len(curve) != 1 or not marks:
        ctx.violation('surr_1d:likelihood figure', dict(n=[x.size for x, _, _ in L]), info=inf)
        return
    gam, y = curve[0]
    g2t = {'SqExp': lambda g: g ** 2 / 2, 'Ma5f2': lambda g: 3 * g ** 2 / 5}[v['args'].get('kernel_type', 'SqExp')]
    # likelihood of the values on the axis, from the recorder and at three points from the reference
    rows = sorted(v['lkd'], key=lambda q: q['theta'][0])
    th = np.array([q['theta'][0] for q in rows])
    ln = np.array([np.nan if q['ln'] is None else q['ln'] for q in rows])
    w = np.interp(np.log(g2t(gam)), np.log(th), ln)
    near = np.array([np.min(np.abs(th / t - 1)) for t in g2t(gam)])
    if near.max() > 1e-9:
        ctx.violation('surr_1d:theta is not that of gamma', dict(worst=float(near.max())), info=inf)
        return
    w = (w - w.min()) / (w.max() - w.min())
    ctx.count('lkd_curve')
    ctx.close('lkd_curve', y, w, 1e-7, 'surr_1d:scaled likelihood', info=inf)
    if ax.get_xscale() != 'log' or r'\gamma' not in ax.get_xlabel():
        ctx.violation('surr_1d:axis', dict(x=ax.get_xlabel(), scale=ax.get_xscale()), info=inf)
    for gx, gy, c in marks:
        j = int(np.argmin(np.abs(gam / gx - 1)))
        if abs(gam[j] / gx - 1) > 1e-12 or abs(y[j] - gy) > 1e-12:
            ctx.violation('surr_1d:marker off the curve', dict(x=gx, y=gy), info=inf)
    if len(marks) != len(figs) - 1 or len(v['model']) != len(marks):
        ctx.violation('surr_1d:number of models', dict(marks=len(marks), figs=len(figs), models=len(v['model'])), info=inf)
        return
    for (gx, gy, c), fig in zip(marks, figs[1:]):
        a = fig.axes[0]
        col = [l.get_color() for x, _, l in lines(a) if str(l.get_label()) == r'$\mu_f$']
        if col and col[0] != c:
            ctx.violation('surr_1d:colour of the model', dict(marker=c, model=col[0]), info=inf)
        t = g2t(gx)
        hp = min(v['model'], key=lambda q: abs(np.log(q['theta'][0] / t)))
        if abs(hp['theta'][0] / t - 1) > 1e-9:
            ctx.violation('surr_1d:model of another gamma', dict(theta=hp['theta'], want=t), info=inf)
            continue
        hp_is_mle(ctx, gp, v, hp, 'surr_1d', inf)
        surr_axes(ctx, a, gp, v, hp, 'surr_1d', inf, fun1)
        for tx in a.texts:
            mm = re.search(r'gamma = ([0-9.]+)', tx.get_text())
            if mm:
                ctx.count('gamma_text')
                if abs(float(mm.group(1)) - gx) > 0.051:
                    ctx.violation('surr_1d:text of gamma', dict(text=tx.get_text(), gamma=gx), info=inf)
        if 'n_sig' in k.used and not any('pm %s ' % kn['n_sig'] in str(cc.get_label()) for cc in a.collections):
            ctx.violation('surr_1d:width of the band is not the requested one', dict(labels=[str(cc.get_label()) for cc in a.collections]), info=inf)


def plt_nugget_1d(ctx, rng, plt):
    n = int(rng.integers(2, 9))
    kern = str(rng.choice(['SqExp', 'SqExp', 'Ma5f2', 'RatQu']))
    cm = float(rng.choice([1e10, 1e8, 1e6]))
    kn = dict(n_eval=str(n), n_gamma=str(int(rng.integers(8, 22))), range_gamma='np.array([%r, %r])' % (float(10 ** rng.uniform(-3, -1)), float(10 ** rng.uniform(1, 3))), kernel_type=repr(kern),
              cond_max=repr(cm), save_fig=str(bool(rng.random() < 0.6)))
    inf = dict(script='plt_nugget_1d', knobs=kn)
    r = script(ctx, plt, 'plt_nugget_1d', kn, inf=inf)
    if r is None:
        return
    ns, rec, figs, k = r
    helpers(ctx, rng, ns, inf)
    gps = [(g, v) for g, v in rec.gps if v['data'] is not None]
    if not gps or len(figs) < 2:
        ctx.violation('nugget:nothing drawn', None, info=inf)
        return
    gp, v = gps[-1]
    kern = v['args'].get('kernel_type')
    data_ok(ctx, v, rosen, drosen, 'nugget', inf)
    ctx.nontrivial(('nugget', kern, n, cm))
    X = v['data']['X']
    n, d = X.shape
    if 'n_eval' in k.used and n != int(kn['n_eval']):
        ctx.violation('nugget:number of points', dict(got=n), info=inf)
    g2 = {'SqExp': 0.5, 'Ma5f2': 0.6, 'RatQu': 0.5}[kern]
    c = cm if 'cond_max' in k.used else 1e10
    nd = n * (d + 1)
    al = np.ravel(gp.hp_kernel_default)[0] if kern == 'RatQu' else None
    tr = nd / (c - 1)
    R = ref.diffs(ld(X), ld(X))

    def mats(gam):
        K = ref.kfull_R(kern, R, np.full(d, g2 * gam ** 2), al, None, None)
        q = np.sqrt(np.diag(K))
        return (K / q[:, None] / q[None, :]).astype(float)
    a = figs[0].axes[0]
    W = {}
    for x, y, l in lines(a):
        lab = str(l.get_label())
        if x.size < 5:
            continue
        kind = 'l2' if r'\ell_2' in lab else 'const' if 'const' in lab else 'vary' if 'vary' in lab else 'min' if r'\mathrm{min}' in lab else None
        if kind is None:
            ctx.violation('nugget:unknown curve', dict(label=lab), info=inf)
            continue
        W[kind] = (x, y)
    if sorted(W) != ['const', 'l2', 'min', 'vary']:
        ctx.violation('nugget:curves', dict(got=sorted(W)), info=inf)
        return
    x = W['min'][0]
    M = [mats(g) for g in x]
    ev = [np.linalg.eigvalsh(A) for A in M]
    eps = 1e-15 * nd
    want = dict(vary=np.array([np.max(np.sum(np.abs(A), axis=1)) for A in M]) / (c - 1) / tr,
                min=np.array([max(0.0, (e[-1] - e[0] * c) / (c - 1)) for e in ev]) / tr)
    tol = dict(vary=1e-10 * want['vary'] + 1e-12, min=np.full(x.size, 40 * eps * c / nd + 1e-10))
    if kern == 'SqExp':
        b = np.sqrt(1 + 4 * d)
        want['const'] = np.full(x.size, (1 + (n - 1) * (1 + b) / 2 * np.exp(-(1 + 2 * d - b) / (4 * d))) / nd)
        tol['const'] = 1e-9
    k1 = np.array([np.linalg.cond(A, 1) for A in M])
    q = np.sqrt(nd) * k1
    want['l2'] = np.maximum(0, nd * q / (q + nd - 1) / (c - 1) * (1 - c / q)) / tr
    tol['l2'] = np.where(k1 < 1e14, 1e-6 + c / q * 40 * eps * k1, 2 * c / 1e14 + 1e-3)
    for kd in want:
        ctx.count('nugget_curve')
        ctx.close('nugget_' + kd, W[kd][1], want[kd], tol[kd], 'nugget:' + kd, info=inf)
    # the nuggets are ordered: what is needed <= variable bound <= trace
    if np.any(W['min'][1] > W['vary'][1] + tol['min']) or np.any(W['vary'][1] > 1 + 1e-9):
        ctx.violation('nugget:order', None, info=inf)
    a = figs[1].axes[0]
    done = {}
    for x, y, l in lines(a):
        if x.size < 5:
            done.setdefault('best', []).append(x)
        elif np.all(y == y[0]) and l.get_linestyle() == '--':
            done['max'] = float(y[0])
        else:
            done['cond'] = True
            M = [mats(g) for g in x]
            kk = np.array([np.linalg.cond(A) for A in M])
            ctx.count('cond_curve')
            ctx.close('cond', np.log10(y), np.log10(kk), np.where(kk < 1e13, 1e-6 + 1e-14 * kk * nd, 40.0), 'nugget:condition number', info=inf)
            if np.any((kk >= 1e13) & (y < 1e12)):
                ctx.violation('nugget:condition number too small', None, info=inf)
    if 'cond' not in done or done.get('max') != c:
        ctx.violation('nugget:figure of the condition number', dict(done=done), info=inf)
    # dashed line at the largest likelihood
    rows = [q for q in v['lkd'] if q['ln'] is not None]
    if rows:
        lm = max(q['ln'] for q in rows if q['ln'] == q['ln'])
        gb = [np.sqrt(q['theta'][0] / g2) for q in rows if q['ln'] >= lm - 1e-9 * (1 + abs(lm))]
        for f in figs[:2]:
            b = [xx for xx, yy, l in lines(f.axes[0]) if xx.size == 2]
            ctx.count('nugget_best')
            if len(b) != 1 or not any(np.allclose(b[0], t, rtol=1e-9) for t in gb):
                ctx.violation('nugget:marker of the largest likelihood', dict(got=b, want=gb[:3]), info=inf)


def plt_cond(ctx, rng, plt):
    n, m = int(rng.integers(3, 7)), int(rng.integers(3, 6))
    ifs = [bool(rng.random() < 0.35) for _ in range(12)]
    ifs[1] = False           # uses a method name that no longer exists ('req_vmin')
    if not any(ifs[:5]):
        ifs[int(rng.choice([0, 2, 3, 4]))] = True
    lo = float(10 ** rng.uniform(-2, 0))
    kn = dict(n_eval=str(n), n_gamma=str(m), range_gamma='np.array([%r, %r])' % (lo, lo * float(10 ** rng.uniform(1, 3))), cond_max=repr(float(rng.choice([1e10, 1e6]))),
              save_fig=str(bool(rng.random() < 0.3)), varK=repr(float(10 ** rng.uniform(-2, 1))))
    if rng.random() < 0.15:
        ifs = None
    inf = dict(script='plt_cond', knobs=kn, ifs=ifs)
    r = script(ctx, plt, 'plt_cond', kn, ifs, inf=inf)
    if r is None:
        return
    ns, rec, figs, k = r
    helpers(ctx, rng, ns, inf)
    gps = [(g, v) for g, v in rec.gps if v['data'] is not None]
    ctx.nontrivial(('cond', n, m, tuple(ifs or ())))
    if not gps:
        ctx.violation('cond:nothing drawn', None, info=inf)
        return
    C = [(ax, a, kw) for kind, ax, a, kw in rec.contours if kind == 'f']
    Z = []
    for ax, a, kw in C:
        x, y, z = a[:3]
        lx, ly = ax.get_xlabel(), ax.get_ylabel()
        if 'gamma_1' in lx and 'gamma_2' in ly:
            pass
        elif 'gamma_2' in lx and 'gamma_1' in ly:
            x, y = y, x
        else:
            ctx.violation('cond:axis labels', dict(x=lx, y=ly), info=inf)
            continue
        if x.ndim == 1:
            x, y = np.meshgrid(x, y)
        mark = [(float(xx[0]), float(yy[0])) for xx, yy, l in lines(ax) if xx.size == 1]
        if 'gamma_2' in lx:
            mark = [(q, p) for p, q in mark]
        Z.append([x, y, z, mark, False, ax])
    if len(Z) != 2 * len(gps):
        ctx.violation('cond:number of figures', dict(contours=len(Z), models=len(gps)), info=inf)
        return
    for gp, v in gps:
        kern = v['args'].get('kernel_type')
        g2 = {'SqExp': 0.5, 'Ma5f2': 0.6, 'RatQu': 0.5}[kern]
        data_ok(ctx, v, rosen, drosen, 'cond', inf)
        rows = {tuple(np.round(np.log(q['theta']), 6)): q for q in v['lkd']}
        tag = '%s/%s/%s' % (kern, v['args'].get('wellcond_mtd'), v['args'].get('use_grad'))
        ok = {}
        for j, (x, y, z, mark, used, axj) in enumerate(Z):
            if used:
                continue
            q = [[rows.get(tuple(np.round(np.log([g2 * x[s] ** 2, g2 * y[s] ** 2]), 6))) for s in np.ndindex(x.shape)]]
            q = q[0]
            if any(t is None for t in q):
                continue
            cond = np.array([np.nan if t['cond'] is None else t['cond'] for t in q]).reshape(x.shape)
            ln = np.array([np.nan if t['ln'] is None else t['ln'] for t in q]).reshape(x.shape)
            sl = (ln - np.nanmin(ln)) / (np.nanmax(ln) - np.nanmin(ln))
            if 'cond' not in ok and np.allclose(z, np.log10(cond), rtol=1e-9, atol=1e-9, equal_nan=True):
                ok['cond'] = j
                Z[j][4] = True
            elif 'lkd' not in ok and np.allclose(z, sl, rtol=0, atol=1e-7, equal_nan=True):
                ok['lkd'] = j
                Z[j][4] = True
                # line of the largest condition number that is allowed
                lev = np.log10(float(kn['cond_max'])) if 'cond_max' in k.used else 10.0
                cl = [a for kind, ax, a, kw in rec.contours if kind == 'l' and ax is axj]
                if not np.any(np.isnan(cond)):
                    hi = np.max(np.log10(cond)) > lev
                    ctx.count('cond_line', hi)
                    if hi != (len(cl) == 1) or hi and not np.allclose(cl[0][2], np.log10(cond), rtol=1e-9):
                        ctx.violation('cond:line of the largest condition number', dict(n=len(cl), want=bool(hi), model=tag), info=inf)
            else:
                continue
            best = np.nanmax(ln)
            at = [(x[s], y[s]) for s in np.ndindex(x.shape) if ln[s] >= best - 1e-9 * (1 + abs(best))]
            ctx.count('cond_best')
            if len(mark) != 1 or not any(np.allclose(mark[0], t, rtol=1e-9) for t in at):
                ctx.violation('cond:marker of the largest likelihood', dict(got=mark, want=at[:2], model=tag), info=inf)
            if len(ok) == 2:
                break
        for kd in ('cond', 'lkd'):
            ctx.count('contour_' + kd)
            if kd not in ok:
                ctx.violation('cond:no figure of the %s with gamma_1 and gamma_2 as labelled' % kd, dict(model=tag), info=inf)
        # one value of each model against the reference
        q = v['lkd'][int(rng.integers(len(v['lkd'])))]
        sc = scen(gp, v, dict(beta=np.zeros(1), theta=q['theta'], kernel=q['kernel'], varK=q['varK'], var_fval=None, var_fgrad=None))
        from ..lk import Lk
        lk = Lk(sc, gp)
        if not lk.noisy:
            kk = lk.cond_f()
            if kk < 1e12 and q['cond'] is not None:
                ctx.close('cond_ref', np.log10(q['cond']), np.log10(kk), 1e-6 + 1e-14 * kk * lk.n, 'cond:value', info=dict(inf, model=tag))


LAB1 = {'ff': r'$\mathrm{corr} \left( f(x), f(y) \right)$', 'gf': r'$\mathrm{corr} \left( \frac{\partial f(x)}{\partial x} , f(y) \right)$',
        'gg': r'$\mathrm{corr} \left( \frac{\partial f(x)}{\partial x}, \frac{\partial f(y)}{\partial y} \right)$'}


def plt_kern_corr(ctx, rng, plt):
    al = float(rng.choice([0.5, 1, 2, 3.5, 10]))
    fl = {k: bool(rng.random() < 0.7) for k in ('plt_sq_exp', 'plt_Ma5f2', 'plt_rat_qd', 'plot_together_fwf')}
    kn = {k: str(v) for k, v in fl.items()}
    kn.update(alpha=repr(al), rmin=str(int(rng.integers(2, 7))), nr=str(int(rng.integers(20, 80))))
    inf = dict(script='plt_kern_corr', knobs=kn)
    r = script(ctx, plt, 'plt_kern_corr', kn, inf=inf)
    if r is None:
        return
    ns, rec, figs, k = r
    helpers(ctx, rng, ns, inf)
    ctx.nontrivial(('kern_corr', al, tuple(fl.values())))
    if 'alpha' not in k.used:
        al = 2.0
    g2 = {'SqExp': 0.5, 'Ma5f2': 0.6, 'RatQu': 0.5}

    def mat(kern, x):
        K = ref.kfull(kern, ld(np.reshape(x, (-1, 1))), ld([[0.0]]), np.array([g2[kern]]), al)
        n = np.size(x)
        return dict(ff=K[:n, 0], gf=K[n:, 0], gg=K[n:, 1])
    seen = {}
    for fig, path, _ in rec.saved:
        b = os.path.basename(path)
        ax = fig.axes[0]
        kern = 'SqExp' if 'sq_exp' in b else 'Ma5f2' if 'mat5f2' in b else 'RatQu' if 'rat_qd' in b else None
        seen[b] = 1
        if '2d' in b:
            q = [a for kind, x, a, kw in rec.contours if x is ax]
            if len(q) != 1:
                ctx.violation('kern_corr:contour', dict(n=len(q)), info=inf)
                continue
            x, y, z = q[0][:3]
            P = np.column_stack([x.ravel(), y.ravel()])
            m = P.shape[0]
            s = rng.choice(m, min(m, 60), replace=False)
            K = ref.kfull('SqExp', ld(P[s]), ld([[0.0, 0.0]]), np.array([0.5, 0.5]))
            ctx.count('kern_corr')
            ctx.close('kern_2d', z.ravel()[s], K[len(s):2 * len(s), 2], 1e-13, 'kern_corr:2d', info=inf)
            if '_1' not in ax.get_xlabel() or '_2' not in ax.get_ylabel():
                ctx.violation('kern_corr:axis labels', dict(x=ax.get_xlabel(), y=ax.get_ylabel()), info=inf)
            continue
        L = {str(l.get_label()): (x, y) for x, y, l in lines(ax)}
        if kern is None:
            W = {'Gaussian': 'SqExp', 'Mat': 'Ma5f2', 'Rat': 'RatQu'}
            if len(L) != 3:
                ctx.violation('kern_corr:curves', dict(labels=list(L)), info=inf)
            for lab, (x, y) in L.items():
                kk = [v for p, v in W.items() if lab.startswith(p)]
                ctx.count('kern_corr')
                if len(kk) != 1:
                    ctx.violation('kern_corr:unknown curve', dict(label=lab), info=inf)
                    continue
                ctx.close('kern_1d', y, mat(kk[0], x)['ff'], 1e-13, 'kern_corr:together ' + kk[0], info=inf)
            continue
        if sorted(L) != sorted(LAB1.values()):
            ctx.violation('kern_corr:labels', dict(labels=list(L)), info=inf)
            continue
        for kd, lab in LAB1.items():
            x, y = L[lab]
            ctx.count('kern_corr')
            ctx.close('kern_1d', y, mat(kern, x)[kd], 2e-13, 'kern_corr:%s:%s' % (kern, kd), info=inf)
    want = 2 * fl['plt_sq_exp'] + fl['plt_Ma5f2'] + fl['plt_rat_qd'] + fl['plot_together_fwf']
    if set(fl) <= k.used and len(seen) != want:
        ctx.violation('kern_corr:figures', dict(got=list(seen), want=want), info=inf)


def optz_paper_precon(ctx, rng, plt):
    files = ['Baye_Kern_SE_n500_Grad_T_None_all.npz', 'Baye_Kern_SE_n500_Grad_T_Vreq_all.npz', 'Baye_Kern_SE_n500_Grad_T_Precon_all.npz']
    cases = ['Rosen_a10_d5', 'Rosen_a10_d10', 'Rosen_a10_d20']
    D = {}
    fs = bool(rng.random() < 0.5)
    for c in cases:
        os.makedirs(os.path.join('data_paper_precon', c))
        for f in files:
            nx, ni = int(rng.integers(1, 5)), int(rng.choice([int(rng.integers(2, 40)), int(rng.integers(150, 200))]))
            q = {}
            for nm in ('merit', 'opt', 'fsb'):
                for s in ('_all', '_wo_noise_all'):
                    q[nm + s] = np.abs(series(rng, (nx, ni), str(rng.choice(['no', 'tail'])))) + 1e-9
                    if nm == 'fsb' and not fs:
                        q[nm + s] = np.zeros((nx, ni))
            np.savez(os.path.join('data_paper_precon', c, f), **q)
            D[c, f] = q
    before = {os.path.join(r, f): open(os.path.join(r, f), 'rb').read() for r, _, ff in os.walk('data_paper_precon') for f in ff}
    inf = dict(script='optz_paper_precon', feasible=fs)
    r = script(ctx, plt, 'optz_paper_precon', {}, sub='results', inf=inf)
    if r is None:
        return
    ns, rec, figs, k = r
    helpers(ctx, rng, ns, inf)
    ctx.nontrivial(('paper', fs))
    for p, b in before.items():
        if not os.path.isfile(p) or open(p, 'rb').read() != b:
            ctx.violation('paper:results file modified', dict(path=p), info=inf)
    labels = dict(zip(files, ('Baseline', 'Rescaling', 'Precondition')))
    color = dict(zip(files, 'mbg'))
    seen = {}
    for fig, path, lim in rec.saved:
        c = [x for x in cases if os.path.basename(path).startswith(x + '_')]
        kd = re.search(r'_(Merit|Obj|Opt)\.png$', path)
        if len(c) != 1 or not kd or os.path.basename(os.path.dirname(path)) != c[0]:
            ctx.violation('paper:file name', dict(path=path), info=inf)
            continue
        c, kd = c[0], kd.group(1)
        seen[c, 'opt' if kd == 'Opt' else 'merit'] = 1
        if kd != 'Opt' and kd != ('Merit' if fs else 'Obj'):
            ctx.violation('paper:merit or objective', dict(got=kd), info=inf)
        ax = fig.axes[0]
        yl = ax.get_ylabel()
        if yl != dict(Merit='Merit', Obj='Objective', Opt='Optimality')[kd] or ax.get_yscale() != 'log':
            ctx.violation('paper:axis', dict(label=yl, scale=ax.get_yscale()), info=inf)
        key = ('opt' if kd == 'Opt' else 'merit') + '_wo_noise_all'
        LL = lines(ax)
        for f in files:
            a = D[c, f][key]
            for row in a:
                v = np.full(160, np.nan)
                m = min(160, row.size)
                v[:m] = row[:m]
                w = ref_best(v, 'min')
                ctx.count('paper_lines')
                hit = [l for x, y, l in LL if np.array_equal(y[:m], w[:m], equal_nan=True) and np.all(np.isnan(y[m:])) and np.array_equal(x, np.arange(x.size))]
                if not any(l.get_color() == color[f] for l in hit):
                    ctx.violation('paper:curve', dict(case=c, file=f, quantity=key, found=len(hit)), info=inf)
            lab = [l.get_color() for x, y, l in LL if str(l.get_label()) == labels[f]]
            if lab != [color[f]]:
                ctx.violation('paper:label', dict(label=labels[f], got=lab), info=inf)
    if len(seen) != 6:
        ctx.violation('paper:figures', dict(got=list(seen)), info=inf)

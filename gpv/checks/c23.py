"""C23: diagnostic tools: the gradient test and the debug figure of the likelihood."""
import contextlib
import io
import re
import numpy as np
from .. import gen
from . import c10

RULE = ('case = test_grad_calc on a random function (polynomial, or mean / standard deviation / likelihood of a random model) with a recorder around both function handles, or set_hpara("optz", i) with the debug figure of '
        'the likelihood switched on, whose artists are read back and whose optimization is compared bitwise with one without the figure; class = (tool, dim, outputs, difference, ...)')
ASSUMPTIONS = ['the debug figure is used as its comment says: two hyperparameters, both optimized in log10']
E = np.finfo(float).eps


def shards(tier):
    k, n = (8, 350) if tier == 'quick' else (24, 1500)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'fd': 600, 'fd:points': 600, 'fd:scalar': 150, 'fd:vector': 100, 'fd:centre': 250, 'fd:forward': 100, 'cmp:fd': 600, 'fd:printed': 150, 'fd:quiet': 150, 'fd:model': 60, 'cmp:fd_model': 50, 'debug': 60,
            'cmp:debug_lkd': 60, 'same_result': 60, 'no_figure': 4}


def run(ctx):
    import gpgradpy.src.optz.OptzLkd  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    c10.hook()
    for i, rng in ctx.cases(ctx.shard['n']):
        if i % 8 == 7:
            debug(ctx, rng, plt)
        elif i % 8 == 6:
            fd_model(ctx, rng)
        else:
            fd(ctx, rng)


def call(ctx, sig, x0, f, g, inf, **kw):
    from gpgradpy.src.base import CommonFun
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ok, r = ctx.guard(sig, CommonFun.test_grad_calc, x0, f, g, info=inf, **kw)
    return (r, out.getvalue()) if ok else (None, None)


def fd(ctx, rng):
    d, m = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    A, B, C = rng.standard_normal((m, d)), rng.standard_normal((m, d)), rng.standard_normal((m, d, d))
    kind = str(rng.choice(['scalar', 'len1', 'vector', 'row']))
    if kind != 'vector':
        m = 1
    sc = 10.0 ** rng.uniform(-2, 2)
    x0 = rng.standard_normal(d) * sc
    far = rng.random() < 0.15
    if far:
        x0 = x0 + rng.choice([-1, 1], d) * 10.0 ** rng.uniform(2, 6)
    if rng.random() < 0.15:
        x0 = np.round(x0).astype(int)
    form = 'array'
    if d == 1 and rng.random() < 0.4:
        x0, form = (float(x0[0]) if rng.random() < 0.5 else int(round(float(x0[0])))), 'number'
    elif rng.random() < 0.2:
        x0, form = x0.tolist(), 'list'
    eps = 1e-8 if rng.random() < 0.3 else float(10 ** rng.uniform(-8, -1))
    if far:     # the step is still representable
        eps = float(10 ** rng.uniform(-3, 1))
    centre = bool(rng.random() < 0.6)
    pr = bool(rng.random() < 0.5)
    fx, gx = [], []

    def val(x):
        v = A[:m] @ x + np.einsum('kij,i,j->k', C[:m], x, x) + B[:m] @ x ** 3
        return float(v[0]) if kind == 'scalar' else v

    def f(x):
        fx.append(np.array(x, copy=True))
        return val(np.asarray(x, float))

    def grad(x):
        v = A[:m] + np.einsum('kij,j->ki', C[:m] + C[:m].transpose(0, 2, 1), x) + 3 * B[:m] * x ** 2
        return v[0] if kind in ('scalar', 'len1') else v

    def g(x):
        gx.append(np.array(x, copy=True))
        return grad(np.asarray(x, float))
    kw = {}
    if eps != 1e-8 or rng.random() < 0.5:
        kw['eps'] = eps
    if not pr or rng.random() < 0.5:
        kw['print_calc'] = pr
    if not centre or rng.random() < 0.5:
        kw['calc_cent_diff'] = centre
    keep = np.array(x0, copy=True)
    inf = 'fd:%s:%s:d%d:m%d:eps%.0e:%s' % (kind, form, d, m, eps, 'centre' if centre else 'forward')
    tag = '%s:%s' % (kind, 'centre' if centre else 'forward')
    r, text = call(ctx, 'test_grad_calc:' + tag, x0, f, g, inf, **kw)
    ctx.count('fd')
    if r is None:
        return
    ctx.count('fd:' + ('vector' if kind == 'vector' else 'scalar'))
    ctx.count('fd:' + ('centre' if centre else 'forward'))
    if not np.array_equal(keep, np.asarray(x0)):
        ctx.violation('fd:x0_changed:' + tag, None, info=inf)
    xx = np.atleast_1d(np.array(keep, float))
    # the points at which the handles were called
    ctx.count('fd:points')
    if len(gx) < 1 or any(not np.array_equal(np.atleast_1d(p), xx) for p in gx):
        ctx.violation('fd:gradient_elsewhere:' + tag, dict(points=gx, x0=xx), info=inf)
    for p in fx:
        df = np.flatnonzero(np.atleast_1d(p) != xx)
        if df.size > 1 or (df.size == 1 and not abs(abs(np.atleast_1d(p)[df[0]] - xx[df[0]]) - eps) <= 4 * E * (abs(xx[df[0]]) + eps)):
            ctx.violation('fd:point:' + tag, dict(point=p, x0=xx, eps=eps), info=inf)
            return
    got, gg = r
    want_g = grad(xx)
    if not np.array_equal(np.asarray(gg), np.asarray(want_g)):
        ctx.violation('fd:gradient_returned:' + tag, dict(got=gg, want=want_g), info=inf)
    W, T = np.zeros((m, d)), np.zeros((m, d))
    f0 = np.atleast_1d(val(xx))
    for i in range(d):
        p, q = xx.copy(), xx.copy()
        p[i] += eps
        q[i] -= eps
        fp, fq = np.atleast_1d(val(p)), np.atleast_1d(val(q))
        W[:, i] = (fp - fq) / (2 * eps) if centre else (fp - f0) / eps
        T[:, i] = 8 * E * (np.abs(fp) + np.abs(fq) + np.abs(f0)) / eps
    want = W if kind in ('vector', 'row') else W[0]
    if np.shape(got) != want.shape:
        ctx.violation('fd:shape:' + tag, dict(got=np.shape(got), want=want.shape), info=inf)
        return
    ctx.close('fd', got, want, T if kind in ('vector', 'row') else T[0], 'fd:value:' + tag, info=inf)
    if pr:
        ctx.count('fd:printed')
        num = [float(v) for v in re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', text)]
        for nm, v in (('difference quotient', got), ('gradient', gg), ('difference', np.asarray(gg) - got), ('x0', xx)):
            v = np.ravel(v)
            # numpy prints 8 digits relative to the largest entry (two decimals less in scientific notation)
            if any(min(abs(a - b) for b in num) > 1e-6 * (np.max(np.abs(v)) + abs(a)) + 1e-8 if num else True for a in v):
                ctx.violation('fd:print:%s' % nm, dict(values=v, text=text[:300]), info=inf)
                break
    else:
        ctx.count('fd:quiet')
        if text.strip():
            ctx.violation('fd:print_unrequested', dict(text=text[:200]), info=inf)
    ctx.nontrivial(('fd', kind, form, d, m, centre, pr, int(np.log10(eps))))
    ctx.sample(dict(case=inf, got=got, want=want))


def fd_model(ctx, rng):
    """the tool applied to a surrogate: difference quotients agree with the gradients the model returns"""
    sc = gen.gen(rng, nmax=6, dmax=4, ndata_max=24, moderate=True, eta_const=0.95, alpha_types=('float',), wcs=gen.WC_GRAD, noises=['zero', 'known', 'hetero'])
    gp = gen.mk_gp(sc)
    gen.put_data(gp, sc)
    gp.set_hpara('set', 0, gen.mk_hp(gp, sc.hp))
    if gp.KernEta_chofac is None:
        return
    x = gen.eval_points(rng, sc, 1)[0]
    inf = sc.short() + '/fd'
    L = np.ptp(sc.X, axis=0).max() if sc.n > 1 else 1.0
    wk = gen.working(sc)
    ell = float(np.min(1 / (np.sqrt(sc.hp['theta']) * wk['s'].astype(float))))     # length scale in the units of x
    eps = 1e-4 * ell

    def f(v):
        return gp.eval_model(v[None])[0]

    def g(v):
        return np.ravel(gp.eval_model(v[None], calc_grad=True)[2])
    try:
        m0, s0 = gp.eval_model(x[None])[:2]
    except AssertionError:
        return
    ctx.count('fd:model')
    r, _ = call(ctx, 'test_grad_calc:model', x, f, g, inf, eps=eps, print_calc=False)
    if r is None:
        return
    # |f'''| <= C |weights| / ell^3 ; evaluate the scale from the weights rather than from the result
    wsum = float(np.sum(np.abs(gp.invKernEta_fdiff)) * (1 + (np.sqrt(np.max(sc.hp['theta'])) if sc.use_grad else 0)) / float(wk['osc']))
    fac = np.sqrt(sc.hp['theta']) * wk['s'].astype(float)      # 1/length per coordinate
    tol = 200 * wsum * fac * (eps * fac) ** 2 + 2000 * E * (wsum + abs(float(m0[0]))) / eps
    scale = np.max(np.abs(r[1])) + 1e-300
    if np.max(tol) > 0.3 * scale:
        ctx.count('fd:model_unresolved')
        return
    ctx.close('fd_model', r[0], r[1], tol, 'fd:model_gradient:' + sc.kernel, info=inf)
    ctx.nontrivial(('fd_model',) + sc.cls())


def debug(ctx, rng, plt):
    sc = gen.gen(rng, kernels=['SqExp', 'Ma5f2'], nmin=2, nmax=6, dmin=2, dmax=2, ndata_max=18, eta_const=0.95, allow_dup=False, moderate=True, noises=['zero'], cond_targets=[1e10, 1e8, 1e6])
    o = c10.options(rng, sc)
    o['optz_log_hp_theta'] = True
    o['optz_iter_max'] = int(rng.choice([3, 15]))
    o.pop('optz_mtd', None)
    i = int(rng.integers(1, 4))
    rows = c10.history(rng, None, sc, i)
    inf = sc.short() + '/debug'
    nv = int(rng.integers(3, 12)) if rng.random() < 0.6 else 10
    from matplotlib.axes import Axes
    rec = []
    orig, show = Axes.contourf, plt.show

    def contourf(self, *a, **kw):
        rec.append([np.array(v, float) for v in a[:3]])
        return orig(self, *a, **kw)
    gp, gq = c10.build(sc, o, rows, i), c10.build(sc, o, rows, i)
    gp._gp_optz_plt_lkd_bool = True
    gp._gp_optz_plt_lkn_nvec = nv
    Axes.contourf, plt.show = contourf, lambda *a, **k: None
    try:
        plt.close('all')
        out = c10.once(ctx, gp, i, inf)
        out2 = c10.once(ctx, gq, i, inf)
        figs = [plt.figure(k) for k in plt.get_fignums()]
    finally:
        Axes.contourf, plt.show = orig, show
    if out is None or out2 is None:
        return
    ctx.count('same_result')
    c10.repeat(ctx, gp, gq, out, out2, i, inf, 'debug_figure')
    if 'rescale' in sc.weff and o['cond_vreq_max_iter'] > 1:
        ctx.count('no_figure')
        plt.close('all')
        return
    if len(figs) != 1 or len(rec) != 1:
        ctx.violation('debug:figures', dict(figures=len(figs), contours=len(rec)), info=inf)
        plt.close('all')
        return
    ctx.count('debug')
    X, Y, Z = rec[0]
    b = out[0]['bounds']
    lb, ub = np.asarray(b.lb, float), np.asarray(b.ub, float)
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    if X.shape != Z.shape or Z.shape != (nv, nv):
        ctx.violation('debug:grid_shape', dict(X=X.shape, Z=Z.shape, want=nv), info=inf)
    else:
        for a, k in ((X, 0), (Y, 1)):
            la = np.log10(a)
            if not (abs(la.min() - lb[k]) < 1e-9 * (1 + abs(lb[k])) and abs(la.max() - ub[k]) < 1e-9 * (1 + abs(ub[k]))):
                ctx.violation('debug:grid_range', dict(axis=k, got=[la.min(), la.max()], want=[lb[k], ub[k]]), info=inf)
        fresh = c10.build(sc, o, rows, i)
        V = np.full(Z.shape, np.nan)
        good = True
        for r in range(nv):
            for c in range(nv):
                h = gen.mk_hp(fresh, dict(sc.hp, theta=np.array([X[r, c], Y[r, c]])))
                h.beta = None
                h.varK = None
                with contextlib.redirect_stdout(io.StringIO()):
                    li, ok = fresh.calc_lkd_all(h, calc_cond=bool(fresh.b_use_cond_cstr))
                good &= ok
                V[r, c] = li.ln_lkd if ok else np.nan
        if good and np.ptp(V) > 0:
            W = (V - V.min()) / np.ptp(V)
            # theta on the grid is known to a rounding of log10: sensitivity from neighbouring nodes
            t = 1e-9 + 1e-6 * np.abs(V) / np.ptp(V)
            ctx.close('debug_lkd', Z, W, t, 'debug:likelihood', info=inf)
        else:
            ctx.count('debug_failed_nodes')
    ax = figs[0].axes[0]
    pts = [(np.ravel(np.asarray(li.get_xdata(), float)), np.ravel(np.asarray(li.get_ydata(), float))) for li in ax.lines]
    x0 = 10.0 ** np.array([c['x0'] for c in out])
    fin = np.array(gp.hp_vals.theta, float)
    for nm, w in (('start', x0), ('result', fin[None])):
        if not any(p[0].size == len(w) and np.allclose(p[0], w[:, 0], rtol=1e-9) and np.allclose(p[1], w[:, 1], rtol=1e-9) for p in pts):
            ctx.violation('debug:marker_' + nm, dict(drawn=pts, want=w), info=inf)
    if not (ax.get_xscale() == ax.get_yscale() == 'log'):
        ctx.violation('debug:scale', None, info=inf)
    if 'theta_1' not in ax.get_xlabel() or 'theta_2' not in ax.get_ylabel() or str(i) not in ax.get_title():
        ctx.violation('debug:labels', dict(x=ax.get_xlabel(), y=ax.get_ylabel(), title=ax.get_title()), info=inf)
    plt.close('all')
    ctx.nontrivial(('debug',) + sc.cls() + (nv,))

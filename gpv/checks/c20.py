"""C20: summaries and plots of results."""
import os
import warnings
import numpy as np
from .. import gen

RULE = ('case = (a) random result files (starts, iterations, missing values) loaded by load_npz_data with random limits, (b) random series through best_at_all_iter, (c) a convergence '
        'figure of random 2-d or 3-d results, (d) a surrogate figure of a random 1-d model, (e) an acquisition figure; every loaded value is compared bitwise, the running best with a '
        'direct scan, and every line, marker and band of the figure is read back from the axes and compared; class = (kind, sizes, options)')
ASSUMPTIONS = ['figures are read back as matplotlib artists (Agg backend)']


def shards(tier):
    k, n = (8, 160) if tier == 'quick' else (16, 1000)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'loaded_values': 100000, 'loads': 150, 'all_iterations': 40, 'more_than_1000': 2, 'clipped': 60, 'noisy_data': 40, 'best': 1500, 'best_nan': 500, 'best_max': 500, 'conv_fig': 40,
            'conv_lines': 150, 'conv_area': 20, 'surr_fig': 60, 'surr_mu': 30, 'surr_band': 30, 'surr_eval': 30, 'surr_exact': 30, 'surr_min': 15, 'acq_fig': 40, 'acq_min': 30}


def run(ctx):
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    for i, rng in ctx.cases(ctx.shard['n']):
        load(ctx, rng, i)
        best(ctx, rng)
        (conv, surr, acq)[i % 3](ctx, rng, plt, i)
        plt.close('all')


def series(rng, shape, nan):
    a = rng.standard_normal(shape) * 10.0 ** rng.uniform(-3, 3)
    if rng.random() < 0.3:
        a = np.round(a)
    if nan == 'tail':
        for k in np.ndindex(shape[:-1]):
            m = int(rng.integers(1, shape[-1] + 1))
            a[k][m:] = np.nan
    elif nan == 'any':
        a[rng.random(shape) < 0.3] = np.nan
    return a


# ------------------------------------------------------------------ stored results
def load(ctx, rng, icase):
    from gpgradpy.results.PltOptzResults import PltOptzResults as P
    d = os.path.join(os.getcwd(), f'r{icase}')
    os.makedirs(d)
    nf = int(rng.integers(1, 4))
    names, D = [], []
    many = rng.random() < 0.06
    for k in range(nf):
        nx, ni = int(rng.integers(1, 8)), int(rng.integers(1, 40))
        if rng.random() < 0.05:
            nx = 20
        if many and k == 0:
            ni = int(rng.integers(1001, 1500))
        r = {}
        for q in ('merit', 'opt', 'fsb'):
            for s in ('_all', '_wo_noise_all'):
                r[q + s] = series(rng, (nx, ni), str(rng.choice(['no', 'tail', 'any'])))
        nm = 'case_%d.npz' % k
        np.savez(os.path.join(d, nm), **r)
        names.append(nm)
        D.append(r)
    lim = None if rng.random() < 0.4 else int(rng.choice([5, 17, 60, 1000, 1400]))
    kw = dict(n_iter_max=lim)
    if lim == 1000 and rng.random() < 0.7:
        kw = {}
    free = bool(rng.random() < 0.6)
    if not (free and rng.random() < 0.5):
        kw['load_noise_free_data'] = free
    inf = dict(files=[r['merit_all'].shape for r in D], **kw)
    if lim is None and many:
        ctx.count('more_than_1000')
    ok, o = ctx.guard('load_npz_data', P.load_npz_data, d, names, info=inf, **kw)
    for nm in names:
        os.remove(os.path.join(d, nm))
    os.rmdir(d)
    if not ok:
        return
    ctx.count('loads')
    ctx.count('all_iterations', lim is None)
    ctx.count('noisy_data', not free)
    mx = max(r['merit_all'].shape[0] for r in D)
    nit = [r['merit_all'].shape[1] for r in D]
    shp = (nf, mx, max(nit) if lim is None else lim)
    for q, a in zip(('merit', 'opt', 'fsb'), o):
        if a.shape != shp:
            ctx.violation('load:shape', dict(name=q, got=a.shape, want=shp), info=inf)
            return
        for k in range(nf):
            w = D[k][q + ('_wo_noise_all' if free else '_all')]
            nx = w.shape[0]
            m = min(w.shape[1], shp[2])
            W = np.full(shp[1:], np.nan)
            W[:nx, :m] = w[:, :m]
            ctx.count('loaded_values', W.size)
            ctx.count('clipped', m < w.shape[1])
            if a[k].tobytes() != W.tobytes() and not np.array_equal(a[k], W, equal_nan=True):
                ctx.violation('load:values ' + q, dict(file=k, nbad=int(np.sum(~((a[k] == W) | (np.isnan(a[k]) & np.isnan(W)))))), info=inf)
    ctx.nontrivial(('load', nf, mx, lim, free))


def ref_best(v, method):
    out, cur = [], np.nan
    for x in v:
        if not np.isnan(x) and (np.isnan(cur) or (x < cur if method == 'min' else x > cur)):
            cur = x
        out.append(cur)
    # nothing is reported after the last iteration that was run
    ok = [i for i, x in enumerate(v) if not np.isnan(x)]
    last = ok[-1] if ok else -1
    for i in range(last + 1, len(v)):
        out[i] = np.nan
    return np.array(out)


def best(ctx, rng):
    from gpgradpy.results.PltOptzResults import PltOptzResults as P
    for _ in range(6):
        n = int(rng.integers(1, 30))
        nan = str(rng.choice(['no', 'tail', 'any', 'all', 'head']))
        v = series(rng, (n,), nan if nan in ('tail', 'any') else 'no')
        if nan == 'all':
            v[:] = np.nan
        if nan == 'head':
            v[:int(rng.integers(1, n + 1))] = np.nan
        if rng.random() < 0.1:
            v[int(rng.integers(n))] = np.inf * rng.choice([-1, 1])
        b = v.tobytes()
        m = str(rng.choice(['min', 'max', 'default']))
        inf = dict(n=n, nan=nan, method=m)
        ok, o = ctx.guard('best_at_all_iter', P.best_at_all_iter, v, *(() if m == 'default' else (m,)), info=inf)
        if not ok:
            continue
        ctx.count('best')
        ctx.count('best_nan', nan != 'no')
        ctx.count('best_max', m == 'max')
        if v.tobytes() != b:
            ctx.violation('best:input modified', None, info=inf)
        w = ref_best(v, 'min' if m == 'default' else m)
        if not np.array_equal(o, w, equal_nan=True):
            ctx.violation('best:values ' + m, dict(v=v, got=o, want=w), info=inf)
        ctx.nontrivial(('best', nan, m, min(n, 4)))


# ------------------------------------------------------------------ figures
def lines(ax):
    return [(np.asarray(l.get_xdata(orig=True), float).ravel(), np.asarray(l.get_ydata(orig=True), float).ravel(), l) for l in ax.lines]


def find(ctx, ax, x, y, sig, inf, n=1, tol=0.0, lab=None):
    """lines or markers drawn with exactly these data"""
    x, y = np.ravel(x).astype(float), np.ravel(y).astype(float)
    hit = [l for a, b, l in lines(ax) if a.shape == x.shape and np.array_equal(a, x, equal_nan=True) and b.shape == y.shape
           and (np.array_equal(b, y, equal_nan=True) or (np.array_equal(np.isnan(b), np.isnan(y)) and np.nanmax(np.abs(b - y), initial=0) <= tol))]
    if lab is not None:
        hit = [l for l in hit if l.get_label() == lab]
    if len(hit) < n:
        ctx.violation(sig, dict(found=len(hit), want=n, y=y[:4], lines=[(str(l.get_label()), b[:3]) for a, b, l in lines(ax)][:8]), info=inf)
    return hit


def bands(ax):
    return [c.get_paths()[0].vertices if len(c.get_paths()) else np.zeros((0, 2)) for c in ax.collections]


def in_band(ctx, ax, x, lo, hi, sig, inf, tol):
    """the corners of some filled polygon are exactly the lower and upper curves"""
    want = np.vstack([np.column_stack([x, lo]), np.column_stack([x, hi])])
    for v in bands(ax):
        if not len(v):
            continue
        a = np.array([np.min(np.max(np.abs(v - p), axis=1)) for p in want])
        b = np.array([np.min(np.max(np.abs(want - p), axis=1)) for p in v])
        # interpolate=True may add crossing points where the curves touch
        if a.max() <= tol and (b <= tol).mean() > 0.9:
            return True
    ctx.violation(sig, dict(bands=len(bands(ax)), lo=lo[:3], hi=hi[:3]), info=inf)
    return False


def conv(ctx, rng, plt, icase):
    from gpgradpy.results.PltOptzResults import PltOptzResults as P
    three = bool(rng.random() < 0.6)
    nc, nx, ni = (int(rng.integers(1, 4)) if three else 1), int(rng.integers(1, 5)), int(rng.integers(2, 25))
    area = bool(rng.random() < 0.5)
    nan = 'no' if area else str(rng.choice(['no', 'tail']))
    a = series(rng, (nc, nx, ni), nan)
    log = bool(rng.random() < 0.5)
    if log:
        a = np.abs(a) + 1e-3
    arg = a.copy() if three else a[0].copy()
    m = str(rng.choice(['min', 'max']))
    lab = ['case %d' % i for i in range(nc)] if rng.random() < 0.6 else None
    kw = dict(str_data_minmax=m) if m == 'max' or rng.random() < 0.5 else {}
    xl, yl = ((0, ni + 2) if rng.random() < 0.3 else None), ((1e-3, 7.5) if rng.random() < 0.3 else None)
    png = os.path.join(os.getcwd(), 'f%d.png' % icase) if rng.random() < 0.1 else None
    inf = dict(shape=arg.shape, nan=nan, log=log, method=m, area=area)
    b0 = arg.tobytes()
    ok, _ = ctx.guard('plt_conv_nx0', P.plt_conv_nx0, log, 'merit', arg, label_vec=lab, b_plt_area=area, xlim=xl, ylim=yl, fig_name2save=png, info=inf, **kw)
    if not ok:
        return
    ctx.count('conv_fig')
    if arg.tobytes() != b0:
        ctx.violation('conv:data modified', None, info=inf)
    ax = plt.gcf().axes[0]
    x = np.arange(ni)
    if len(ax.lines) != nc * nx:
        ctx.violation('conv:number of lines', dict(got=len(ax.lines), want=nc * nx), info=inf)
    B = np.array([[ref_best(a[i, j], m) for j in range(nx)] for i in range(nc)])
    for i in range(nc):
        col = set()
        for j in range(nx):
            ctx.count('conv_lines')
            h = find(ctx, ax, x, B[i, j], 'conv:line', inf)
            col |= {str(l.get_color()) for l in h}
        if lab is not None:
            k = [l for _, y, l in lines(ax) if l.get_label() == lab[i]]
            # identical starts of different cases cannot be told apart
            if len(k) != 1 or not any(np.array_equal(np.asarray(k[0].get_ydata(), float), B[i, j], equal_nan=True) for j in range(nx)):
                ctx.violation('conv:label', dict(label=lab[i], n=len(k)), info=inf)
        if area:
            ctx.count('conv_area')
            lo, hi = B[i].min(axis=0), B[i].max(axis=0)
            in_band(ctx, ax, x, lo, hi, 'conv:area', inf, 1e-9 * (1 + np.max(np.abs(B[i]))))
    if (ax.get_yscale() == 'log') != log:
        ctx.violation('conv:scale', dict(got=ax.get_yscale()), info=inf)
    if xl is not None and tuple(ax.get_xlim()) != tuple(map(float, xl)) or yl is not None and tuple(ax.get_ylim()) != yl:
        ctx.violation('conv:limits', dict(x=ax.get_xlim(), y=ax.get_ylim()), info=inf)
    if png:
        if not os.path.isfile(png) or open(png, 'rb').read(4) != b'\x89PNG':
            ctx.violation('conv:file', None, info=inf)
        else:
            ctx.count('conv_file')
            os.remove(png)
    ctx.nontrivial(('conv', three, nc, nx, nan, log, m, area))


def surr(ctx, rng, plt, icase):
    from gpgradpy.plt.SurrPlt import SurrPlt
    sc = gen.gen(rng, dmin=1, dmax=1, nmin=2, nmax=6, moderate=True, noises=['zero', 'known', 'hetero'])
    inf = dict(sc=sc.short())
    gp = gen.mk_gp(sc)
    n = int(rng.integers(5, 60))
    lo, hi = sc.X.min(), sc.X.max()
    x = np.linspace(lo - 0.2 * (hi - lo + 1e-3), hi + 0.2 * (hi - lo + 1e-3), n)[:, None]
    try:
        gen.put_data(gp, sc)
        gp.init_optz_surr(1)
        gp.set_hpara('set', 0, gen.mk_hp(gp, sc.hp))
        mu, sig = gp.eval_model(x)[:2]
    except Exception:       # noqa    (other checks judge the model)
        ctx.count('model_failed')
        return
    exa = sc._fun.f(x)
    ns = float(rng.choice([1, 2, 3, 0.5]))
    opt = dict(b_plt_fmin=bool(rng.random() < 0.5), b_plt_exact=bool(rng.random() < 0.8), b_plt_eval=bool(rng.random() < 0.8), b_plt_surr_mu=bool(rng.random() < 0.8),
               b_plt_surr_sig=bool(rng.random() < 0.8))
    kw = {k: v for k, v in opt.items() if v != (k != 'b_plt_fmin') or rng.random() < 0.5}
    if rng.random() < 0.3:
        kw.update(color_mean='b', color_std='lightblue', legend_loc='out')
    fig, ax = plt.subplots()
    args = [x, exa, sc.X.copy(), sc.f.copy(), mu, sig]
    b0 = [v.tobytes() for v in args]
    ok, _ = ctx.guard('plot_surr', SurrPlt().plot_surr, ax, *args, ns, info=dict(inf, opt=opt), **kw)
    if not ok:
        return
    inf = dict(inf, opt=opt)
    ctx.count('surr_fig')
    if [v.tobytes() for v in args] != b0:
        ctx.violation('surr:data modified', None, info=inf)
    tol = 1e-12 * (np.max(np.abs(mu)) + ns * np.max(sig))
    nl = 0
    lb, ub = mu - ns * sig, mu + ns * sig
    if opt['b_plt_surr_sig']:
        ctx.count('surr_band')
        find(ctx, ax, x, lb, 'surr:lower line', inf, tol=tol)
        find(ctx, ax, x, ub, 'surr:upper line', inf, tol=tol)
        in_band(ctx, ax, x[:, 0], lb, ub, 'surr:band', inf, 1e-9 * (1 + np.max(np.abs(np.r_[x[:, 0], lb, ub]))))
        nl += 2
    elif len(ax.collections):
        ctx.violation('surr:band drawn', None, info=inf)
    if opt['b_plt_exact']:
        ctx.count('surr_exact')
        find(ctx, ax, x, exa, 'surr:exact', inf, lab=r'$f(x)$')
        nl += 1
    if opt['b_plt_surr_mu']:
        ctx.count('surr_mu')
        find(ctx, ax, x, mu, 'surr:mean', inf, lab=r'$\mu_f$')
        nl += 1
    if opt['b_plt_eval']:
        ctx.count('surr_eval')
        h = find(ctx, ax, sc.X, sc.f, 'surr:data points', inf)
        if h and not any(l.get_marker() not in ('None', None, '') and l.get_linestyle() in ('None', '', ' ') for l in h):
            ctx.violation('surr:data points not drawn as markers', None, info=inf)
        nl += 1
    if opt['b_plt_fmin']:
        ctx.count('surr_min')
        k = int(np.argmin(exa))
        h = find(ctx, ax, x[k], exa[k:k + 1], 'surr:minimum', inf)
        nl += len(h)
    if len(ax.lines) != nl:
        ctx.violation('surr:number of lines', dict(got=len(ax.lines), want=nl, labels=[str(l.get_label()) for l in ax.lines]), info=inf)
    ctx.nontrivial(('surr', sc.kernel, sc.use_grad, tuple(opt.values()), ns))


def acq(ctx, rng, plt, icase):
    from gpgradpy.plt.SurrPlt import SurrPlt
    n, na = int(rng.integers(2, 40)), int(rng.integers(1, 4))
    x = np.linspace(-1, 2, n)[:, None] if rng.random() < 0.5 else np.sort(rng.standard_normal(n) * 10.0 ** rng.uniform(-3, 3))[::int(rng.choice([-1, 1])), None]
    a = series(rng, (n, na), 'no')
    if rng.random() < 0.4:      # all of one sign
        a = a + rng.choice([-1, 1]) * rng.uniform(1, 3) * np.max(np.abs(a))
    if rng.random() < 0.2:
        a[:, 0] = a[0, 0]
    names = ['q%d' % i for i in range(na)]
    scl, mn = bool(rng.random() < 0.5), bool(rng.random() < 0.7)
    kw = {}
    if scl or rng.random() < 0.5:
        kw['b_scl_data'] = scl
    if not mn or rng.random() < 0.5:
        kw['b_plt_min_acq'] = mn
    inf = dict(n=n, na=na, scaled=scl, minimum=mn)
    fig, ax = plt.subplots()
    b0 = a.tobytes()
    ok, _ = ctx.guard('plot_acq', SurrPlt().plot_acq, ax, x, a, names, info=inf, **kw)
    if not ok:
        return
    ctx.count('acq_fig')
    if a.tobytes() != b0:
        ctx.violation('acq:data modified', None, info=inf)
    for i in range(na):
        y = a[:, i]
        if scl:
            y = (y - y.min()) / max(1e-8, y.max() - y.min())
        find(ctx, ax, x, y, 'acq:curve', inf, tol=1e-14 * (1 + np.max(np.abs(y))), lab=names[i])
        if mn:
            ctx.count('acq_min')
            k = int(np.argmin(y))
            find(ctx, ax, x[k], y[k:k + 1], 'acq:minimum', inf, tol=1e-14 * (1 + np.max(np.abs(y))))
    if len(ax.lines) != na * (1 + mn):
        ctx.violation('acq:number of lines', dict(got=len(ax.lines), want=na * (1 + mn)), info=inf)
    ctx.nontrivial(('acq', min(n, 4), na, scl, mn))

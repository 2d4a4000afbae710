"""Seeded scenario generation and the glue between scenarios, gpgradpy and ref."""
import numpy as np
from . import ref
from .ref import LD, ld

KERNELS = ['SqExp', 'Ma5f2', 'RatQu']
WC_GRAD = ['precon', 'base', 'rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax']
SCALED = ('rescale_origin', 'rescale_eta_vary', 'dflt_vmin', 'dflt_vmax')


class Sc:
    """One scenario.  Plain attributes; desc() is its JSON form."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def desc(self):
        def j(v):
            if isinstance(v, np.ndarray):
                return v.tolist()
            if isinstance(v, (np.floating, np.integer, np.bool_)):
                return v.item()
            if isinstance(v, dict):
                return {k: j(x) for k, x in v.items()}
            return v
        return {k: j(v) for k, v in self.__dict__.items() if not k.startswith('_')}

    def short(self):
        return '%s/%s/grad=%d/d%d/n%d/ng%d/%s' % (self.kernel, self.wc, self.use_grad, self.dim, self.n, self.ng, self.noise)

    def cls(self):
        m = 'none' if self.bvec is None else ('all' if self.bvec.all() else ('zero' if not self.bvec.any() else 'some'))
        return (self.kernel, self.wc, int(self.use_grad), min(self.dim, 4), min(self.n, 4), m, self.noise)


def gen_X(rng, n, dim, allow_dup=True):
    kind = rng.choice(['unif', 'unif', 'lat', 'line', 'clus', 'pair', 'dup'])
    if kind == 'unif' or n == 1:
        X = rng.uniform(-1, 1, (n, dim))
    elif kind == 'lat':
        X = np.array([np.linspace(-1, 1, n)[rng.permutation(n)] for _ in range(dim)]).T
    elif kind == 'line':
        v = rng.standard_normal(dim)
        X = np.linspace(-1, 1, n)[rng.permutation(n), None] * v + 0.2
    elif kind == 'clus':
        c = rng.uniform(-1, 1, (2, dim))
        X = c[rng.integers(0, 2, n)] + 0.15 * rng.standard_normal((n, dim))
    else:
        X = rng.uniform(-1, 1, (n, dim))
        i, j = rng.choice(n, 2, replace=False)
        X[i] = X[j]
        if kind == 'pair' or not allow_dup:
            X[i] += 10.0 ** rng.uniform(-4, -1) * rng.choice([-1, 1], dim)
    if rng.random() < 0.2:
        X = np.round(X * 4) / 4 + (0 if allow_dup else 1e-3 * rng.standard_normal(X.shape))   # exact ties in coordinates
    return X


class Fun:
    """smooth test function with exact gradient"""

    def __init__(self, rng, dim, scl):
        self.k = rng.standard_normal((3, dim)) / scl * rng.uniform(0.3, 2)
        self.p = rng.uniform(0, 6, 3)
        self.a = rng.standard_normal(3)
        self.q = rng.standard_normal(dim) / scl
        self.c = rng.standard_normal() * 3
        u = rng.random()     # units of the data: mostly moderate, now and then extreme
        self.amp = 10.0 ** rng.uniform(-2, 3) if u < 0.45 else 10.0 ** rng.uniform(-9, 8) if u < 0.55 else 1.0

    def f(self, X):
        return self.amp * (np.sin(X @ self.k.T + self.p) @ self.a + X @ self.q + self.c)

    def g(self, X):
        return self.amp * ((np.cos(X @ self.k.T + self.p) * self.a) @ self.k + self.q[None, :])


def some_exact(rng, *arrs):
    """observations of which a part is exact: some standard deviations (not all of an array) become zero"""
    for a in arrs:
        if a is not None and a.size > 1 and rng.random() < 0.4:
            m = rng.random(a.shape) < rng.uniform(0.2, 0.9)
            m.flat[int(rng.integers(a.size))] = False
            a[m] = 0.0


def size(i, base, k=30):
    """now and then much larger problems than usual: many points, or many coordinates"""
    if i % (6 * k) == k // 2:
        return {**base, **dict(nmin=48, nmax=110, dmin=1, dmax=4, ndata_max=260)}
    if i % k == k // 2:
        return {**base, **dict(nmin=12, nmax=32, dmin=1, dmax=2, ndata_max=72)}
    if i % k == k - 1:
        return {**base, **dict(nmin=2, nmax=5, dmin=7, dmax=12, ndata_max=56)}
    return base


def gen(rng, kernels=KERNELS, use_grad=None, wcs=WC_GRAD, noises=None, masks=None, nmax=8, dmax=4, ndata_max=40,
        hp_extreme=0.0, opts=None, eta_const=0.85, nmin=1, alpha_types=('float',), cond_targets=None, dmin=1, allow_dup=True,
        moderate=False, aniso=0.0):
    kernel = str(rng.choice(kernels))
    ug = bool(rng.random() < 0.75) if use_grad is None else bool(use_grad)
    while True:
        dim = int(rng.integers(dmin, dmax + 1))
        n = int(rng.integers(nmin, nmax + 1))
        if n * (1 + dim * ug) <= ndata_max:
            break
    wc = str(rng.choice(wcs)) if ug else str(rng.choice(['base', 'precon', 'rescale_origin']))
    weff = wc if ug else 'base'
    if wc == 'rescale_eta_vary' and not ug:
        wc = 'base'
    scaled = weff in SCALED
    scl = 10.0 ** rng.uniform(-2, 2, dim) if rng.random() < 0.35 else np.ones(dim)
    U = gen_X(rng, n, dim, allow_dup=allow_dup and not scaled)
    shift = rng.uniform(-3, 3, dim) * scl if rng.random() < 0.5 else np.zeros(dim)
    X = U * scl + shift
    fun = Fun(rng, dim, scl)
    if rng.random() < 0.7:
        f, G = fun.f(X), fun.g(X)
    else:
        f, G = fun.amp * rng.standard_normal(n), fun.amp * rng.standard_normal((n, dim)) / scl
    # gradient mask
    bvec = None
    if ug:
        mk = str(rng.choice(masks if masks is not None else ['none', 'none', 'some', 'some', 'all', 'zero' if rng.random() < .3 else 'some']))
        if mk == 'all':
            bvec = np.ones(n, bool)
        elif mk == 'zero':
            bvec = np.zeros(n, bool)
        elif mk == 'some':
            bvec = rng.random(n) < rng.uniform(0.3, 0.8)
            if not bvec.any():
                bvec[int(rng.integers(n))] = True
    ng = 0 if not ug else (n if bvec is None else int(bvec.sum()))
    g = None
    if ug:
        g = np.ascontiguousarray(G if bvec is None else G[bvec])
    # noise
    noise = str(rng.choice(noises if noises is not None else
                           ['zero', 'zero', 'zero', 'known', 'hetero', 'unk_f', 'unk_g', 'unk', 'f_only', 'g_only', 'tiny', 'nan']))
    if not ug:
        noise = {'unk_g': 'unk_f', 'unk': 'unk_f', 'f_only': 'known', 'g_only': 'zero'}.get(noise, noise)
    fs = fun.amp
    nl = 10.0 ** rng.uniform(-3, -0.5)
    sf = np.zeros(n)
    sg = np.zeros((ng, dim)) if ug else None
    unk_f = unk_g = False
    if noise == 'known':
        sf = np.full(n, fs * nl)
        if ug:
            sg = np.full((ng, dim), fs * nl * 2) / scl
    elif noise == 'hetero':
        sf = fs * nl * rng.uniform(0.1, 3, n)
        if ug:
            sg = fs * nl * rng.uniform(0.1, 3, (ng, dim)) / scl
        some_exact(rng, sf, sg)
    elif noise == 'f_only':
        sf = fs * nl * rng.uniform(0.1, 3, n)
        some_exact(rng, sf)
    elif noise == 'g_only':
        sg = fs * nl * rng.uniform(0.1, 3, (ng, dim)) / scl
        some_exact(rng, sg)
    elif noise == 'tiny':
        sf = np.full(n, 1e-12)
        if ug:
            sg = np.full((ng, dim), 1e-12)
    elif noise == 'unk_f':
        sf = None
        unk_f = True
        if ug and rng.random() < 0.5:
            sg = fs * nl * rng.uniform(0.1, 3, (ng, dim)) / scl
    elif noise == 'unk_g':
        sg = None
        unk_g = True
        if rng.random() < 0.5:
            sf = fs * nl * rng.uniform(0.1, 3, n)
    elif noise == 'unk':
        sf = sg = None
        unk_f = True
        unk_g = ug
    elif noise == 'nan':
        sf = np.full(n, np.nan)
        if n > 1 and rng.random() < 0.5:
            sf = np.zeros(n)
            sf[int(rng.integers(n))] = np.nan
        unk_f = True
        if ug:
            sg = np.full((ng, dim), np.nan)
            unk_g = ng > 0
    if ng == 0 and ug and sg is not None and sg.size == 0:
        sg = np.zeros((0, dim))
    o = dict(opts or {})
    if cond_targets is None:
        ct = float(rng.choice([1e10, 1e10, 1e10, 1e8, 1e6, 1e4, 1e12]))
    else:
        ct = float(rng.choice(cond_targets))
    o.setdefault('cond_max_target', ct)
    o.setdefault('cond_max', o['cond_max_target'])
    if rng.random() < 0.3:
        o.setdefault('cond_eta_set_mtd', str(rng.choice(['Kbase_eta', 'Kbase_eta_w_dim', 'dflt_eta'])))
    if wc != 'rescale_eta_vary' and rng.random() > eta_const:
        o.setdefault('cond_eta_is_const', False)
    if weff == 'dflt_vmin' and rng.random() < 0.5:
        o.setdefault('cond_dist_min_dflt', float(10 ** rng.uniform(-1, 1)))
    if weff == 'dflt_vmax' and rng.random() < 0.5:
        o.setdefault('cond_dist_max_dflt', float(10 ** rng.uniform(-0.5, 1)))
    sc = Sc(kernel=kernel, wc=wc, weff=weff, use_grad=ug, dim=dim, n=n, ng=ng, X=X, f=f, g=g, bvec=bvec,
            noise=noise, sf=sf, sg=sg, unk_f=unk_f, unk_g=unk_g, opts=o, scl=scl, amp=float(fun.amp))
    sc._G = G
    sc._fun = fun
    if scaled and aniso and rng.random() < aniso:
        # per-coordinate scaling, as the optimizer of the models with rescaled data sets it
        sc.xsc = 10.0 ** rng.uniform(-0.5, 0.5, dim)
    # hyperparameters in the working space of the model
    wk = working(sc)
    Xs = wk['X'].astype(float)
    if n > 1:
        L = np.maximum(np.ptp(Xs, axis=0), 1e-3 * np.max(np.ptp(Xs, axis=0)) + 1e-12)
    else:
        L = scl * wk['s'].astype(float)
    if rng.random() < hp_extreme:
        u = rng.uniform(-4, 4, dim)
    elif moderate:
        u = rng.uniform(0.0, 0.7, dim)
    else:
        u = rng.uniform(-1, 1.3, dim)
    if dim > 6:
        u = u - 0.5 * np.log10(dim / 2)
    th = (10.0 ** u / L) ** 2
    ws = float(np.std(wk['f'].astype(float))) if n > 1 else 1.0
    ws = ws if ws > 1e-12 else 1.0
    varK = float(ws ** 2 * 10.0 ** rng.uniform(-2, 2))
    beta = np.array([float(np.mean(wk['f'].astype(float)) + ws * rng.standard_normal())])
    al = None
    if kernel == 'RatQu':
        al = float(10 ** rng.uniform(-1, 1)) if rng.random() < 0.85 else float(rng.choice([1e-3, 1e-2, 10., 2.]))
        t = str(rng.choice(list(alpha_types)))
        if t == 'array':
            al = np.array([al])
        elif t == 'int':
            al = int(rng.integers(1, 5))
    vf = vg = None
    if unk_f:
        vf = float((ws * 10 ** rng.uniform(-3, 0)) ** 2)
    if unk_g:
        vg = float((ws * 10 ** rng.uniform(-3, 0) / np.mean(L)) ** 2)
    sc.hp = dict(beta=beta, theta=th, kernel=al, varK=varK, var_fval=vf, var_fgrad=vg)
    return sc


def mk_gp(sc, GP=None):
    if GP is None:
        from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    gp = GP(sc.dim, sc.use_grad, sc.kernel, sc.wc)
    for k, v in sc.opts.items():
        setattr(gp, k, v)
    return gp


def cp(a):
    return None if a is None else np.array(a, copy=True)


def put_data(gp, sc):
    gp.set_data(cp(sc.X), cp(sc.f), cp(sc.sf), cp(sc.g), cp(sc.sg), cp(sc.bvec))
    if xsc_of(sc) is not None:
        gp.DataScl.set_xscale_data(xvec_scale_in=cp(sc.xsc))


def xsc_of(sc):
    return getattr(sc, 'xsc', None) if sc.weff in SCALED else None


def mk_hp(gp, hp):
    return gp.make_hp_class(cp(hp['beta']), cp(hp['theta']),
                            cp(hp['kernel']) if isinstance(hp['kernel'], np.ndarray) else hp['kernel'],
                            hp['varK'], hp['var_fval'], hp['var_fgrad'])


def alpha_of(sc, hp=None):
    al = (hp or sc.hp)['kernel']
    if sc.kernel != 'RatQu':
        return None
    return float(np.atleast_1d(al)[0])


# ------------------------------------------------------------- working space
def vreq(n, dim):
    if n == 1:
        return 1.0
    ds = 2 * np.sqrt(dim)
    v = (2 + np.sqrt(4 + 2 * np.exp(2) * np.log((n - 1) * (1 + ds) / 2))) / np.e
    return min(v, ds)


def working(sc, xscale=None):
    """Data in the model's working space, computed independently in longdouble.
    xscale: override of the per-coordinate scale (after optimization)."""
    X, f = ld(sc.X), ld(sc.f)
    n, d = X.shape
    if sc.weff in SCALED:
        xsh, osh = X[-1], f[-1]
        v = np.ones(d, LD) if xsc_of(sc) is None else ld(sc.xsc)
        if n == 1:
            iso, osc = LD(1), LD(1)
        else:
            D = np.sqrt((((X[:, None, :] - X[None, :, :]) * v) ** 2).sum(-1))
            iu = np.triu_indices(n, 1)
            if sc.weff == 'rescale_origin':
                iso = LD(vreq(n, d)) / D[iu].min()
            elif sc.weff == 'rescale_eta_vary':
                iso = LD(1) / D[iu].min()
            elif sc.weff == 'dflt_vmin':
                iso = LD(sc.opts.get('cond_dist_min_dflt', 1)) / D[iu].min()
            else:
                iso = LD(sc.opts.get('cond_dist_max_dflt', 1)) / D[iu].max()
            osc = LD(100) / max(f.max() - f.min(), LD(1e-20))
        s = iso * v
        if xscale is not None:
            s = ld(xscale)
    else:
        xsh, osh, s, osc = np.zeros(d, LD), LD(0), np.ones(d, LD), LD(1)
    out = dict(xsh=xsh, s=s, osh=osh, osc=osc, X=(X - xsh) * s, f=(f - osh) * osc)
    out['g'] = None if sc.g is None else ld(sc.g) * osc / s
    out['sf'] = None if sc.sf is None else ld(sc.sf) * osc
    out['sg'] = None if sc.sg is None else ld(sc.sg) * osc / s
    y = out['f']
    if sc.use_grad:
        y = np.concatenate([y] + [out['g'][:, j] for j in range(d)])
    out['y'] = y
    return out


def noise_vec(sc, wk, var_fval, var_fgrad, ctype=LD):
    """independent noise-variance vector in working units"""
    n, d, ng = sc.n, sc.dim, sc.ng
    kf = not sc.unk_f
    kg = not sc.unk_g
    zf = kf and np.max(sc.sf) < 1e-10
    zg = (not sc.use_grad) or (kg and (np.max(sc.sg) < 1e-10 if sc.sg.size else True))
    v = np.zeros(n + ng * d * sc.use_grad, dtype=ctype)
    if zf and zg:
        return v, False
    v[:n] = var_fval if sc.unk_f else wk['sf'] ** 2
    if sc.use_grad:
        if sc.unk_g:
            v[n:] = var_fgrad
        elif ng:
            v[n:] = np.concatenate([wk['sg'][:, j] ** 2 for j in range(d)])
    return v, True


def model_scale(gp, sc):
    """The scale vector the model uses, if it agrees with the independent one
    up to the rounding of the distances it is derived from (else None)."""
    if sc.weff not in SCALED:
        return None
    want = working(sc)['s'].astype(float)
    try:
        got = np.array(gp.DataScl.xvec_scale, dtype=float).ravel()
    except AttributeError:
        return None
    if got.shape != want.shape:
        return None
    if sc.n > 1:
        v = np.ones(sc.dim) if xsc_of(sc) is None else sc.xsc
        Y = (sc.X - sc.X[-1]) * v
        D = np.sqrt((((sc.X[:, None] - sc.X[None]) * v) ** 2).sum(-1))
        dmin = D[np.triu_indices(sc.n, 1)].min()
        rel = 50 * ref.EPS * (1 + np.max(np.abs(Y)) / dmin)
    else:
        rel = 50 * ref.EPS
    return got if np.all(np.abs(got / want - 1) <= rel) else None


def ref_model(sc, eta, hp=None, xscale=None, gp=None):
    hp = hp or sc.hp
    if xscale is None and gp is not None:
        xscale = model_scale(gp, sc)
    wk = working(sc, xscale)
    nv, noisy = noise_vec(sc, wk, hp['var_fval'], hp['var_fgrad'])
    M = ref.Model(sc.kernel, wk['X'], sc.bvec, sc.use_grad, wk['y'], nv, hp['theta'], alpha_of(sc, hp),
                  np.atleast_1d(hp['beta'])[0], hp['varK'], eta, 'precon' if sc.weff == 'precon' else 'base')
    return M, wk


def eta_vary(sc):
    return sc.wc == 'rescale_eta_vary' or sc.opts.get('cond_eta_is_const', True) is False


def eta_cap(sc, M):
    """largest nugget the documented option can produce (M: reference model)"""
    c = sc.opts['cond_max_target'] - 1
    if eta_vary(sc):
        K = M.kern_mat()
        if sc.weff == 'precon':
            K = K.copy()
            i = np.arange(K.shape[0])
            K[i, i] += M.noise / M.varK
            p = np.sqrt(np.diag(K))
            K = K / p[:, None] / p[None, :]
        return float(np.max(np.sum(np.abs(K), axis=1))) / c * (1 + 1e-9)
    if sc.opts.get('cond_eta_set_mtd') == 'dflt_eta':
        return sc.opts.get('cond_eta_dflt', 1e-8)
    if not sc.use_grad or sc.n == 1:
        return sc.n / c * (1 + 1e-12)
    if sc.weff == 'base' or sc.weff.startswith('dflt_v'):
        m = sc.opts.get('cond_eta_set_mtd', 'Kbase_eta')
        return sc.n * ((sc.dim + 1) if m == 'Kbase_eta_w_dim' else 1) / c * (1 + 1e-12)
    return sc.n * (sc.dim + 1) / c


_UB = {}


def _argmax(f, hi):
    a, b = 0.0, float(hi)
    for _ in range(6):
        t = np.linspace(a, b, 2001)
        v = f(t)
        k = int(np.argmax(v))
        a, b = t[max(k - 2, 0)], t[min(k + 2, 2000)]
    return float(np.max(v))


def row_bound(kernel, dim):
    """largest sum of |off-diagonal entries| of a row of the preconditioned matrix that one other point can add"""
    if (kernel, dim) not in _UB:
        r = np.sqrt(3 * dim)
        if kernel == 'Ma5f2':
            f = lambda a: (1 + (dim + r) * a + dim * (1 + r) * a ** 2) * np.exp(-r * a)     # noqa
        else:
            f = lambda a: (1 + dim * a) * np.exp(-dim * a ** 2 / 2)     # noqa
        _UB[kernel, dim] = _argmax(f, 5.0)
    return _UB[kernel, dim]


def eta_doc(sc):
    """the nugget documented for the options (None when it depends on the matrix)"""
    c = sc.opts['cond_max_target'] - 1
    if eta_vary(sc):
        return None
    if sc.opts.get('cond_eta_set_mtd') == 'dflt_eta':
        return sc.opts.get('cond_eta_dflt', 1e-8)
    if not sc.use_grad or sc.n == 1:
        return sc.n / c
    if sc.weff == 'precon':
        return (1 + (sc.n - 1) * row_bound(sc.kernel, sc.dim)) / c
    if sc.weff.startswith('rescale'):
        a = 2 * np.sqrt(sc.dim) / vreq(sc.n, sc.dim)
        return (1 + (sc.n - 1) * _argmax(lambda g: (1 + a * g) * np.exp(-g), 3.0)) / c
    return sc.n * ((sc.dim + 1) if sc.opts.get('cond_eta_set_mtd') == 'Kbase_eta_w_dim' else 1) / c


def ref_predict(M, wk, Xe, grad=True, hess=False, ntry=3, seed=0, amp=8.0, safety=40.0):
    """prediction and its tolerance in ORIGINAL units."""
    s, osc = wk['s'], wk['osc']
    Xw = (ld(Xe) - wk['xsh']) * s
    scaled = not (np.all(s == 1) and np.all(wk['xsh'] == 0))

    def un(p):
        o = dict(mu=p['mu'] / osc + wk['osh'], sig2=p['sig2'] / osc ** 2)
        if 'dmu' in p:
            o['dmu'] = p['dmu'] * s / osc
            o['dsig2'] = p['dsig2'] * s / osc ** 2
        if 'd2mu' in p:
            ss = s[:, None] * s[None, :]
            o['d2mu'] = p['d2mu'] * ss / osc
            o['d2sig2'] = p['d2sig2'] * ss / osc ** 2
        return o
    base = un(M.posterior(Xw, grad, hess))
    tol = {k: np.zeros(v.shape) for k, v in base.items()}
    for t in range(ntry):
        rng = np.random.default_rng([seed, t, 77])
        try:
            p = un(M.posterior(Xw, grad, hess, pert=rng, xamp=(2.0 if scaled else 0.0), amp=amp))
        except ref.NotPD:
            return base, None
        for k in tol:
            tol[k] = np.maximum(tol[k], np.abs((p[k] - base[k]).astype(float)))
    ysc = float(np.max(np.abs(M.y / osc)) + abs(M.beta / osc)) + float(np.abs(wk['osh']))
    vk = float(M.varK / osc ** 2)
    th = (M.th * s ** 2).astype(float)
    fl = dict(mu=ysc, sig2=vk, dmu=ysc * np.sqrt(th)[None, :], dsig2=vk * np.sqrt(th)[None, :],
              d2mu=(ysc * np.sqrt(np.outer(th, th)))[None], d2sig2=(vk * np.sqrt(np.outer(th, th)))[None])
    for k in tol:
        # spread the tolerance within an array row: individual samples can be luckily small
        v = tol[k]
        if v.ndim == 1:
            v = np.maximum(v, 0.25 * v.max())
        tol[k] = safety * v + 200 * ref.EPS * fl[k]
    return base, tol


def eval_points(rng, sc, m):
    n, d = sc.X.shape
    sp = np.ptp(sc.X, axis=0) if n > 1 else sc.scl.copy()
    sp = np.where(sp > 0, sp, sc.scl)
    P = []
    for _ in range(m):
        u = rng.random()
        if u < 0.6:
            p = sc.X.mean(0) + sp * rng.uniform(-0.8, 0.8, d)
        elif u < 0.75:
            p = sc.X[int(rng.integers(n))] + sp * rng.choice([1e-2, 1e-1]) * rng.standard_normal(d)
        elif u < 0.85 and n > 1:
            i, j = rng.choice(n, 2, replace=False)
            p = (sc.X[i] + sc.X[j]) / 2
        elif u < 0.93:
            p = sc.X.mean(0) + sp * 3 * rng.standard_normal(d)
        else:
            p = sc.X[int(rng.integers(n))].copy()
            p[int(rng.integers(d))] += sp.max() * 0.3
        P.append(p)
    return np.array(P)


# ------------------------------------------------------------- kernel level
class KCase:
    pass


def kcase(rng, kernels=KERNELS, square=None, nmax=6, dmax=5, alpha_types=('float',), nmin=1, dmin=1, **unused):
    """random arguments for the kernel routines (point sets may coincide)"""
    c = KCase()
    c.kernel = str(rng.choice(kernels))
    c.d = int(rng.integers(dmin, dmax + 1))
    c.n1 = int(rng.integers(nmin, nmax + 1))
    c.square = bool(rng.random() < 0.5) if square is None else square
    X = gen_X(rng, c.n1, c.d)
    if c.square:
        Y = X
    else:
        n2 = int(rng.integers(nmin if rng.random() < 0.5 else 1, nmax + 1))
        Y = gen_X(rng, n2, c.d)
        for i in range(n2):
            if rng.random() < 0.25:
                Y[i] = X[int(rng.integers(c.n1))]
    c.n2 = Y.shape[0]
    scl = 10.0 ** rng.uniform(-2, 2, c.d) if rng.random() < 0.4 else np.ones(c.d)
    c.X, c.Y = X * scl, Y * scl
    u = rng.uniform(-4, 1.3, c.d) if rng.random() < 0.2 else rng.uniform(-1, 1, c.d)
    if rng.random() < 0.15:
        u[:] = u[0]
    if c.d > 6:
        u = u - 0.5 * np.log10(c.d / 2)
    if rng.random() < 0.08:
        u = u + rng.uniform(1, 5)      # points many length scales apart
    c.theta = (10.0 ** u / scl) ** 2
    c.al, c.al_arg = None, None
    if c.kernel == 'RatQu':
        c.al = float(10 ** rng.uniform(-3, 1)) if rng.random() < 0.8 else float(rng.choice([1e-3, 0.5, 1, 2, 10]))
        t = str(rng.choice(list(alpha_types)))
        c.al_arg = np.array([c.al]) if t == 'array' else c.al
    c.R = np.ascontiguousarray((c.X.T[:, :, None] - c.Y.T[:, None, :]))
    def mk(n):
        r = rng.random()
        if r < 0.45:
            return None
        if r < 0.55:
            return np.ones(n, bool)
        if r < 0.62:
            return np.zeros(n, bool)
        return rng.random(n) < 0.6
    c.m1 = mk(c.n1)
    c.m2 = c.m1 if (c.square and rng.random() < 0.7) else mk(c.n2)
    c.grad = bool(rng.random() < 0.8)

    def kind(m):
        return 'none' if m is None else ('all' if m.all() else ('zero' if not m.any() else 'some'))
    c.cls = (c.kernel, min(c.d, 3), min(c.n1, 3), min(c.n2, 3), kind(c.m1), kind(c.m2), c.grad)
    c.tag = '%s:%s' % (c.kernel, 'grad' if c.grad else 'base')
    return c


def kgp(c):
    """a bare model object giving access to the kernel routines"""
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    return GP(c.d, c.grad, c.kernel, 'base')


def kcond(c, extra=0.0):
    """relative rounding amplification of one kernel value (its s-argument)"""
    s = ref._s(ld(c.R), ld(c.theta)).astype(float)
    if c.kernel == 'RatQu':
        s = c.al * np.log1p(s / c.al) + np.minimum(s, s / c.al)    # (1+s/al)^-al : error of base times al + pow
        return 1 + np.minimum(s, 800)
    return 1 + s

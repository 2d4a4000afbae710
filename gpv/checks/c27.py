"""C27: the numbers count, not the type, layout or container of the arrays they come in."""
import copy
import numpy as np
from .. import gen
from . import c14, c25

RULE = ('case = one random data set whose numbers are representable in another type (single precision, long double, integers, unsigned integers, other byte order) or that is given in another layout '
        '(Fortran order, strided, reversed, transposed view, broadcast, read-only, memory-mapped subclass, list); one object gets the numbers as float64 arrays in C order, the other one gets some of them in the other form '
        '(data, standard deviations, gradients, mask, evaluation points, hyperparameters); all results of both are compared; plus the same for Rescaling objects and the distance helpers; '
        'class = (kernel, method, noise, form, what it was applied to)')
ASSUMPTIONS = ['an exception is an acceptable answer for forms other than float64, float32, integers and other layouts of these',
               'results are compared up to rounding (1e-8 relative to the largest entry at condition numbers below 1e4): a layout may change the order of summation']
MUST = {'f4', 'i8', 'i4', 'i2', 'F', 'strided', 'neg', 'view', 'ro'}
LAYOUT = ['F', 'strided', 'neg', 'view', 'ro', 'bcast', 'memmap', 'list']
TYPES = ['f4', 'f4', 'i8', 'i8', 'i4', 'i2', 'i1', 'u1', 'u4', 'u8', 'f2', 'g', '>f8', 'obj']
TARGETS = ['X', 'f', 'sf', 'g', 'sg', 'bvec', 'P', 'hp', 'hp', 'hp', 'data', 'all']


def shards(tier):
    k, n = (8, 150) if tier == 'quick' else (24, 800)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'models': 600, 'layouts': 200, 'types': 300, 'results': 8000, 'must': 300, 'masks': 30, 'rescalings': 150, 'scaled': 80, 'noisy': 150, 'optimized': 40, 'conversions': 40}


def run(ctx):
    for i, rng in ctx.cases(ctx.shard['n']):
        if i % 5 == 4:
            rescaling(ctx, rng)
        else:
            model(ctx, rng)


# ------------------------------------------------------------------ other forms of the same numbers
def form(kind, a):
    """the numbers of a in another form"""
    if a is None:
        return None
    a = np.asarray(a)
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'strided':
        b = np.full(tuple(3 * s for s in a.shape), 77, a.dtype)
        b[tuple(slice(1, None, 3) for _ in a.shape)] = a
        return b[tuple(slice(1, None, 3) for _ in a.shape)]
    if kind == 'neg':
        s = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[s])[s]
    if kind == 'view':
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, 0, -1)), -1, 0)
    if kind == 'ro':
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == 'bcast':
        if a.size and np.all(a == a.flat[0]):
            return np.broadcast_to(a.flat[0], a.shape)
        return form('ro', a)
    if kind == 'memmap':
        return a.copy().view(np.memmap)
    if kind == 'list':
        return a.tolist()
    if kind == 'obj':
        return a.astype(object)
    if kind == 'int01':
        return a.astype(int)
    return a.astype({'g': np.longdouble}.get(kind, kind))


def grid(kind):
    """largest magnitude and sign of the numbers for this type"""
    if kind == 'i1':
        return 110, True
    if kind == 'u1':
        return 200, False
    if kind in ('u4', 'u8'):
        return 500, False
    if kind == 'f2':
        return 100, True
    if kind in ('i8', 'i4', 'i2'):
        return 200, True
    return None, True


def to_grid(a, m, signed, s):
    b = np.round(np.asarray(a, float) * s)
    return b if signed else np.abs(b)


class Nums:
    """numbers exactly representable in the type"""

    def __init__(self, rng, kind, tgt):
        while True:
            sc = gen.gen(rng, nmax=6, dmax=3, ndata_max=20, moderate=True, allow_dup=False, eta_const=0.85, cond_targets=[1e3, 1e4], wcs=gen.WC_GRAD + ['rescale_origin', 'base'],
                         noises=['zero', 'zero', 'known', 'hetero', 'unk_f', 'unk_g', 'unk', 'f_only', 'g_only'])
            if kind in LAYOUT:
                P = gen.eval_points(rng, sc, 3)
                self.sc, self.P = sc, P
                return
            m, signed = grid(kind)
            sc.hp = dict(sc.hp)
            if tgt == 'hp' and kind in ('i8', 'i4', 'obj', 'g', '>f8'):
                # whole hyperparameters and any data
                k = rng.integers(1, 10, sc.dim).astype(float)
                r = np.sqrt(sc.hp['theta'] / k)
                sc.X = sc.X * r
                if sc.g is not None:
                    sc.g = sc.g / r
                sc.hp['theta'] = k
                sc.hp['beta'] = np.round(sc.hp['beta'])
                sc.hp['varK'] = float(np.ceil(sc.hp['varK']))
                P = gen.eval_points(rng, sc, 3)
                if np.all(np.isfinite(sc.X)):
                    break
            rnd = (lambda v: None if v is None else np.asarray(v, np.float32).astype(float))
            if m is None:
                sc.X, sc.f, sc.sf, sc.g, sc.sg = rnd(sc.X), rnd(sc.f), rnd(sc.sf), rnd(sc.g), rnd(sc.sg)
                sc.hp['theta'], sc.hp['beta'] = rnd(sc.hp['theta']), rnd(sc.hp['beta'])
                P = rnd(gen.eval_points(rng, sc, 3))
                break
            lo, hi = np.min(sc.X, 0), np.max(sc.X, 0)
            U = (sc.X - (lo + hi) / 2) / np.max(np.maximum(hi - lo, 1e-300)) * 2
            s = float(rng.integers(10, m // 2 + 1))
            off = 0 if signed else m // 2
            if rng.random() < 0.5:
                off += int(rng.integers(-m // 3, m // 3 + 1)) if signed else 0
            X = np.round(U * s + off)
            X = np.clip(X, -m if signed else 0, m)
            if len(np.unique(X, axis=0)) < sc.n:
                continue
            sc.X = X
            c = m / max(np.max(np.abs(sc.f)), 1e-300)
            sc.f = to_grid(sc.f, m, signed, c * rng.uniform(0.2, 1))
            if sc.g is not None:
                sc.g = to_grid(sc.g, m, signed, m / max(np.max(np.abs(sc.g), initial=0), 1e-300) * rng.uniform(0.2, 1))
            for k in ('sf', 'sg'):
                v = getattr(sc, k)
                if v is not None and not np.any(np.isnan(v)) and np.max(v, initial=0) > 0:
                    setattr(sc, k, np.maximum(np.round(v / np.max(v) * rng.integers(3, 40)), (v > 0) * 1.0))
            sc.hp['theta'] = np.round(rng.uniform(0.3, 3, sc.dim)) + 1.0 if rng.random() < 0.3 else rng.uniform(0.3, 3, sc.dim) / s ** 2
            sc.hp['beta'] = np.round(np.atleast_1d(np.mean(sc.f)))
            sc.hp['varK'] = float(np.round(np.var(sc.f) + 1))
            if sc.hp['var_fval'] is not None:
                sc.hp['var_fval'] = float(np.round(sc.hp['varK'] * 0.1) + 1)
            if sc.hp['var_fgrad'] is not None:
                sc.hp['var_fgrad'] = 2.0
            P = np.clip(np.round(np.vstack([X[:1], rng.uniform(np.min(X), np.max(X) + 1, (2, sc.dim))])), -m if signed else 0, m)
            break
        self.sc, self.P = sc, P


def okfor(kind, a):
    """the numbers are representable"""
    if a is None:
        return False
    if kind in LAYOUT or kind in ('obj', 'g', '>f8'):
        return True
    b = np.asarray(a, float)
    if np.dtype(kind).kind in 'iu' and np.any(np.isnan(b)):
        return False
    with np.errstate(all='ignore'):
        return np.array_equal(b.astype(kind).astype(float), b, equal_nan=True)


def build(sc, a, hp, xsc=None):
    gp = gen.mk_gp(sc)
    gp.set_data(a['X'], a['f'], a['sf'], a['g'], a['sg'], a['bvec'])
    if xsc is not None:
        gp.DataScl.set_xscale_data(xvec_scale_in=xsc)
    h = gp.make_hp_class(hp['beta'], hp['theta'], hp['kernel'], hp['varK'], hp['var_fval'], hp['var_fgrad'])
    gp.set_hpara('set', 0, hp_vals=h)
    return gp


class Plain(c14.Watch):
    def call(self, name, fn, *a, **kw):
        return fn(*a, **kw)


def model(ctx, rng):
    kind = str(rng.choice(LAYOUT)) if rng.random() < 0.4 else str(rng.choice(TYPES))
    tgt = str(rng.choice(TARGETS))
    nums = Nums(rng, kind, tgt)
    sc, P = nums.sc, nums.P
    inf = dict(sc=sc.short(), form=kind, target=tgt)
    a0 = dict(X=gen.cp(sc.X), f=gen.cp(sc.f), sf=gen.cp(sc.sf), g=gen.cp(sc.g), sg=gen.cp(sc.sg), bvec=gen.cp(sc.bvec))
    hp0 = {k: (np.array(v, float) if isinstance(v, np.ndarray) else v) for k, v in sc.hp.items()}
    names = dict(data=['X', 'f', 'sf', 'g', 'sg'], all=['X', 'f', 'sf', 'g', 'sg', 'P', 'hp'], hp=['hp'], P=['P']).get(tgt, [tgt])
    a1, hp1, P1 = {k: gen.cp(v) for k, v in a0.items()}, dict(hp0), P.copy()
    did = []
    for k in names:
        if k == 'hp':
            if kind in ('f4', 'f2', 'i2', 'i1', 'u1', 'u4', 'u8'):     # hyperparameters are floats or (long) integers
                continue
            for j in ('theta', 'beta'):
                if okfor(kind, hp0[j]) and kind != 'list':
                    hp1[j] = form(kind, hp0[j])
                    did.append('hp.' + j)
            for j in ('varK', 'kernel', 'var_fval', 'var_fgrad'):
                if isinstance(hp0[j], float) and kind not in LAYOUT and okfor(kind, hp0[j]):
                    v = form(kind, np.array(hp0[j]))
                    hp1[j] = v[()] if rng.random() < 0.7 or j == 'kernel' else v
                    did.append('hp.' + j)
        elif k == 'P':
            if okfor(kind, P):
                P1 = form(kind, P)
                did.append('P')
        elif k == 'bvec':
            if a0['bvec'] is not None:
                kk = kind if kind in LAYOUT else str(rng.choice(['int01', 'obj']))
                a1['bvec'] = form(kk, a0['bvec'])
                did.append('bvec:' + kk)
        elif okfor(kind, a0[k]):
            a1[k] = form(kind, a0[k])
            did.append(k)
    if not did:
        ctx.count('nothing_to_do')
        return
    inf['did'] = did
    must = kind in MUST and not any(d.startswith('bvec') and d[5:] not in MUST for d in did)
    w = Plain(ctx, inf)
    try:
        g0 = build(sc, a0, hp0, gen.xsc_of(sc))
    except Exception as e:      # noqa
        ctx.count('plain_refused:' + type(e).__name__)
        return
    vec = c14.mkvec(g0.hp_info_optz_lkd, sc.hp, None)
    r0 = c14.results(w, g0, sc, P, vec, sc.hp)
    ctx.count('models')
    ctx.count('layouts' if kind in LAYOUT else 'types')
    ctx.count('must', must)
    ctx.count('masks', any(d.startswith('bvec') for d in did))
    ctx.count('scaled', sc.weff in gen.SCALED)
    ctx.count('noisy', sc.noise != 'zero')
    try:
        g1 = build(sc, a1, hp1, gen.xsc_of(sc))
        r1 = c14.results(w, g1, sc, P1, vec, sc.hp)
    except Exception as e:      # noqa
        ctx.count('refused:%s' % kind)
        if must:
            ctx.violation('refused:%s:%s:%s' % (type(e).__name__, kind, '+'.join(sorted(set(inf['did'])))), dict(err=str(e)[:150]), info=inf)
        return
    compare(ctx, r0, r1, kind, must, inf)
    if any(d.startswith('hp.') for d in did):
        conversions(ctx, g0, sc, kind, hp0, hp1, must, inf)
    if kind in ('f4', 'i8', 'i4', 'u4', 'u8', 'u1', 'g', '>f8', 'ro') and rng.random() < 0.4:
        optimize(ctx, rng, sc, a0, a1, kind, inf)
    ctx.nontrivial((sc.kernel, sc.weff, sc.noise, sc.use_grad, kind, tgt))
    ctx.sample(inf)


def conversions(ctx, gp, sc, kind, hp0, hp1, must, inf):
    """the functions of the hyperparameters alone"""
    n, ng = gp.n_eval, gp.n_grad

    def go(hp):
        t, b, out = hp['theta'], hp['kernel'], {}
        out['theta2gamma'], out['gamma2theta'] = gp.theta2gamma(t), gp.gamma2theta(t)
        if sc.use_grad:
            for v in (False, True):
                out['precon%d' % v] = gp.calc_Kern_precon(n, ng, t, calc_grad=True, b_return_vec=v)
        X, T = gp.get_scl_x_w_dist()
        out['base'] = gp.calc_KernBase(T, t, b)
        h = gp.make_hp_class(hp['beta'], t, b, hp['varK'], hp['var_fval'], hp['var_fgrad'])
        out['all_K'] = [x for x in gp.calc_all_K_w_chofac(T, h)[1:4] if isinstance(x, np.ndarray)]
        return out
    r0 = go(hp0)
    try:
        r1 = go(hp1)
    except Exception as e:      # noqa
        if must:
            ctx.violation('refused:hp:%s' % kind, dict(err=str(e)[:150]), info=inf)
        return
    ctx.count('conversions')
    for k in r0:
        ctx.count('results')
        if not c25.near(r0[k], r1[k], 1e-8):
            ctx.violation('differs:hp:%s:%s' % (kind, k), dict(plain=c14.short(r0[k]), other=c14.short(r1[k])), info=inf)


LOOSE = {'cond', 'condg'}


def biggest(v):
    if isinstance(v, (tuple, list)):
        return max([biggest(x) for x in v], default=0.0)
    try:
        a = np.asarray(v, float)
        return float(np.max(np.abs(a[np.isfinite(a)]), initial=0))
    except (TypeError, ValueError):
        return 0.0


def near(x, y, tol, sig=False):
    """as c25.near; derivatives that are zero but for rounding have the scale of the other entries of the result;
    sig: mu and sigma alternate; a small sigma is the square root of a cancelled difference"""
    if c25.near(x, y, tol):
        return True
    if not (isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y)):
        return False
    floor = 1e-6 * tol * biggest(x)
    for j, (a, b) in enumerate(zip(x, y)):
        if c25.near(a, b, 1e-5 if sig and j % 2 else tol):
            continue
        if not isinstance(a, (np.ndarray, float)) or np.shape(a) != np.shape(b):
            return False
        a, b = np.asarray(a, float), np.asarray(b, float)
        if not np.array_equal(np.isnan(a), np.isnan(b)) or np.any(np.abs(a - b)[~np.isnan(a)] > floor):
            return False
    return True


def compare(ctx, r0, r1, kind, must, inf):
    for k in r0:
        x, y = r0[k], r1.get(k)
        ctx.count('results')
        rx, ry = (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == 'raised' for v in (x, y))
        if ry and not rx:
            if must:
                ctx.violation('raised:%s' % k, dict(err=y[1]), info=inf)
            ctx.count('result_refused')
            continue
        if rx:
            continue
        if k.startswith('init') and k != 'inithp':
            continue
        if not near(x, y, 1e-5 if k in LOOSE or 'lkd_all' in k else 1e-6 if k == 'eval_model_var' else 1e-8, k.startswith(('eval', 'hess'))):
            ctx.violation('differs:%s:%s' % (kind, '+'.join(sorted({d.split(".")[0] for d in inf['did']}))), dict(plain=c14.short(x), other=c14.short(y)), info=inf)


def optimize(ctx, rng, sc, a0, a1, kind, inf):
    """the optimization of the hyperparameters and its history, bit for bit"""
    def go(a):
        gp = gen.mk_gp(sc)
        gp.optz_iter_max, gp.optz_n_x0, gp.lkd_hp_best_n_eval = 3, 1, 3
        gp.hp_const_n_eval = sc.n + 1
        gp.init_optz_surr(2)
        out = []
        for i in range(2):
            gp.hp_const_n_eval = sc.n + 1 if i == 0 else 0
            gp.set_data(a['X'], a['f'], a['sf'], a['g'], a['sg'], a['bvec'])
            gp.set_hpara('optz', i)
            out.append({k: None if v is None else np.array(v, float) for k, v in vars(gp.hp_vals).items()})
        return out
    try:
        r0 = go(a0)
    except Exception as e:      # noqa
        ctx.count('optz_refused:' + type(e).__name__)
        return
    ok, r1 = ctx.guard('optz', lambda: go(a1), info=inf)
    if not ok:
        return
    ctx.count('optimized')
    for x, y in zip(r0, r1):
        for k in x:
            if not c14.same(x[k], y[k]):
                ctx.violation('differs_optz:%s' % kind, dict(k=k, plain=c14.short(x[k]), other=c14.short(y[k])), info=inf)
                return


def rescaling(ctx, rng):
    kind = str(rng.choice(LAYOUT[:-1])) if rng.random() < 0.3 else str(rng.choice([t for t in TYPES if t != 'obj']))
    m, signed = grid(kind) if kind not in LAYOUT else (None, True)
    n, d, c = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 3))

    def num(*shape, pos=False):
        if m is None:
            a = rng.standard_normal(shape) * 10.0 ** rng.uniform(-2, 2)
            a = np.abs(a) + 1 if pos else a
            return np.asarray(a, np.float32).astype(float)
        a = np.round(rng.uniform(-m if signed else 0, m, shape))
        return np.maximum(np.abs(a), 1) if pos else a
    while True:
        X = num(n, d)
        if len(np.unique(X, axis=0)) == n:
            break
    f, sf, G, sG = num(n), num(n, pos=True), num(n, d), num(n, d, pos=True)
    C, sC, gC, sgC = num(n, c), num(n, c, pos=True), num(n, c, d), num(n, c, d, pos=True)
    lb, ub, A, la, ua, Z = num(d), num(d), num(2, d), num(2), num(2), num(2, d)
    mtd = [None, 'set_vmin', 'set_vmax'][int(rng.integers(3))]
    sv, sh = num(d, pos=True), num(d)
    opt = dict(x_scl_method=mtd, dist_set=None if rng.random() < 0.5 else 2.0, use_x_shift=bool(rng.random() < 0.7))
    os_, ns = bool(rng.random() < 0.7), bool(rng.random() < 0.5)
    omtd = None if rng.random() < 0.3 else 'dflt_max'
    rs = rng.random() < 0.6
    inf = dict(form=kind, n=n, d=d, opt=opt)
    from gpgradpy.src.base.Rescaling import Rescaling

    def go(F):
        out = {}
        S = Rescaling(F(X), **opt)
        S.set_obj_data(F(f), F(sf), F(G), F(sG), use_obj_shift=os_, obj_scl_method=omtd)
        S.set_nlc_data(F(C), F(sC), F(gC), F(sgC), use_nlc_shift=ns)
        S.set_boxcon(F(lb), F(ub))
        S.set_lincon(F(A), F(la), F(ua))
        if rs:
            S.set_xscale_data(F(sh), F(sv))
        for nm in ('get_scl_x', 'get_scl_x_w_dist', 'get_scl_obj_data', 'get_scl_nlc_data', 'get_scl_boxcon', 'get_scl_lincon', 'get_init_x', 'get_init_obj_data', 'get_init_nlc_data'):
            out[nm] = getattr(S, nm)()
        out['x'] = S.x_init_2_scl(F(Z)), S.x_scl_2_init(F(Z))
        out['obj'] = S.obj_init_2_scl(F(f), F(sf), F(G), F(sG)), S.obj_scl_2_init(F(f), F(sf), F(G), F(sG))
        out['nlc'] = S.nlc_init_2_scl(F(C), F(sC), F(gC), F(sgC)), S.nlc_scl_2_init(F(C), F(sC), F(gC), F(sgC))
        out['par'] = S.x_shift, S.xvec_scale, S.obj_scale, S.obj_shift, S.nlc_scale
        return out
    r0 = go(lambda a: np.array(a, float))
    ctx.count('rescalings')
    try:
        r1 = go(lambda a: form(kind, a))
    except Exception as e:      # noqa
        if kind in MUST:
            ctx.violation('rescaling:refused:%s' % kind, dict(err=str(e)[:150]), info=inf)
        ctx.count('refused:' + kind)
        return
    for k in r0:
        ctx.count('results')
        if not c25.near(r0[k], r1[k], 1e-12):
            ctx.violation('rescaling:%s:%s' % (kind, k), dict(plain=c14.short(r0[k]), other=c14.short(r1[k])), info=inf)
    ctx.nontrivial(('rescaling', kind, mtd, n == 1, rs))

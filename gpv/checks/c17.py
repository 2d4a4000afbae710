"""C17: compiled kernel routines, memory safety and agreement with the interpreter."""
import dataclasses
import importlib
import sys
import numpy as np
from .. import gen
from . import c14

RULE = ('case = one call of a numba-compiled routine (value, theta, alpha and x derivatives of the value and gradient kernels, masked and unmasked versions, calc_Rtensor) '
        'with arguments embedded in canary-filled buffers (NaN for floats) in C, Fortran or strided layout; run compiled with NUMBA_BOUNDSCHECK, or with the default optimization '
        'under libc_malloc_debug (MALLOC_CHECK_=3) with freshly allocated memory filled by MALLOC_PERTURB_; monitors: no exception or heap abort, canaries and arguments unchanged, '
        'result finite, repeated call bitwise equal, equal to the same source run by the interpreter; e2e cases: whole models compiled vs interpreted; '
        'class = (routine, kernel, layouts, kind of kernel hyperparameter, mask kinds, dim, n1, n2, mode)')
ASSUMPTIONS = ['the second copy of gpgradpy imported with numba.config.DISABLE_JIT is the interpreted source of the same files',
               'tolerance = 1e-12 |value| + 1e-3 x the change of the interpreted result when every input is perturbed by 1e-9 (relative), so about 4500 ulp of the inputs',
               'numba NRT allocates through malloc, so MALLOC_PERTURB_ reaches its arrays (selftest in each shard)']

HEAP = {'LD_PRELOAD': 'libc_malloc_debug.so.0', 'MALLOC_CHECK_': '3', 'MALLOC_PERTURB_': '165'}
FULL = ['kb', 'kbt', 'kbx', 'kg', 'kgt', 'kgx', 'kba', 'kga']
OLD = {'SqExp': ('KernelSqExp', 'KernelSqExpGrad', 'sq_exp_'), 'Ma5f2': ('KernelMatern5f2', 'KernelMatern5f2Grad', 'matern_5f2_'),
       'RatQu': ('KernelRatQuad', 'KernelRatQuadGrad', 'rat_quad_')}
# signature variants: (layout of Rtensor, layout of theta, kind of hp, mask 1, mask 2)
V_BASE = [('C', 'C', 'f', '-', '-'), ('F', 'A', 'a', '-', '-'), ('A', 'C', 'i', '-', '-')]
V_MASK = [('C', 'C', 'f', 'C', 'C'), ('C', 'C', 'f', '-', 'C'), ('C', 'C', 'f', 'C', '-'), ('A', 'A', 'a', 'A', 'A'), ('F', 'C', 'i', 'C', 'C')]


def variants(fn, tier, mode):
    if fn in ('kb', 'kbt', 'kbx', 'kba') or fn.startswith('o'):
        v = V_BASE
    else:
        v = V_BASE + V_MASK
        if fn in ('kgt', 'kga', 'kgx'):      # one mask argument
            v = [x for x in v if x[3:] not in (('-', 'C'), ('C', '-'))]
    if tier == 'quick' and mode == 'jit3':
        v = [x for x in v if x in (V_BASE[0], V_MASK[0], V_MASK[1])]
    return v


def shards(tier):
    out = []
    n = 12 if tier == 'quick' else 120
    for kn in gen.KERNELS:
        groups = [['kb', 'kbt', 'kbx'], ['kg'], ['kgx'], ['kgt']]
        if kn == 'RatQu':
            groups[0] = ['kb', 'kbt', 'kbx', 'kba']
            groups.append(['kga'])
        groups.append(['okg', 'okgx', 'okgt'] + (['okga'] if kn == 'RatQu' else []))
        for g in groups:
            for md in ('jitb', 'jit3'):
                if tier == 'quick' and md == 'jit3' and g[0] == 'okg':
                    continue
                out.append(dict(name=f'{kn}.{g[0]}.{md}', mode=md, n=n, kernel=kn, fns=g, env=HEAP if md == 'jit3' else {'MALLOC_PERTURB_': '165'}))
    for md in ('jitb', 'jit3'):
        out.append(dict(name=f'rt.{md}', mode=md, n=20 * n, kernel='SqExp', fns=['rt'], env=HEAP if md == 'jit3' else {'MALLOC_PERTURB_': '165'}))
    for kn in gen.KERNELS:
        for md in (('jit0',) if tier == 'quick' else ('jit0', 'jit3', 'jitb')):
            out.append(dict(name=f'e2e.{kn}.{md}', mode=md, n=40 if tier == 'quick' else 400, kernel=kn, fns=['e2e'], env={'MALLOC_PERTURB_': '165'}))
    # longest first
    w = {'kg': 3, 'kgt': 9, 'kga': 9, 'kgx': 7, 'okg': 6, 'kb': 4, 'rt': 1, 'e2e': 5}
    return sorted(out, key=lambda s: -w[s['fns'][0]] * (1.2 if s['kernel'] != 'SqExp' else 1))


def REQUIRED(tier):
    r = {'cmp:' + f: 24 for f in ('kb', 'kbt', 'kbx', 'kba', 'kg', 'kgt', 'kgx', 'kga')}
    r.update({'cmp:rt': 200, 'canary': 1500, 'finite': 1500, 'repeat': 1500, 'perturbed': 5, 'e2e': 60, 'e2e_values': 20000, 'lay:F': 200, 'lay:A': 300, 'hp:a': 300, 'hp:i': 300,
              'mask:zero': 60, 'mask:some': 300, 'one_point': 150, 'one_dim': 200, 'bounds_sanitizer': 5})
    return r


# ------------------------------------------------------------------ two copies
def interpreted_copy():
    """the same source, not compiled"""
    import numba
    keep = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'gpgradpy' or k.startswith('gpgradpy.')}
    old = numba.config.DISABLE_JIT
    numba.config.DISABLE_JIT = True
    try:
        m = importlib.import_module('gpgradpy.src.GaussianProcess')
        km = {v[0]: importlib.import_module('gpgradpy.src.kernel.' + v[0]) for v in OLD.values()}
    finally:
        numba.config.DISABLE_JIT = old
        for k in [k for k in sys.modules if k == 'gpgradpy' or k.startswith('gpgradpy.')]:
            del sys.modules[k]
        sys.modules.update(keep)
    return m.GaussianProcess, km


def load(ctx):
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    km = {}
    for v in OLD.values():
        km[v[0]] = importlib.import_module('gpgradpy.src.kernel.' + v[0])
    GI, ki = interpreted_copy()
    assert GI is not GP
    return GP, km, GI, ki


# ------------------------------------------------------------------ guarded arguments
class Arr:
    """an array inside a larger buffer filled with canaries"""

    def __init__(self, a, lay, rng):
        a = np.asarray(a)
        self.can = np.nan if a.dtype.kind == 'f' else True
        pad = int(rng.integers(3, 20))
        if lay in 'CF':
            self.buf = np.full(a.size + 2 * pad, self.can, dtype=a.dtype)
            self.v = self.buf[pad:pad + a.size].reshape(a.shape, order=lay)
        else:
            shp = tuple(2 * k + 4 for k in a.shape)
            self.buf = np.full(shp, self.can, dtype=a.dtype)
            self.v = self.buf[tuple(slice(2, 2 + 2 * k, 2) for k in a.shape)]
        self.v[...] = a
        self.was = self.buf.tobytes()

    def changed(self):
        return self.buf.tobytes() != self.was


def call(gp, km, kn, fn, R, th, hk, m1, m2):
    # arguments that are not given stay absent, as in the calls of the package
    if fn == 'kb':
        return gp.calc_KernBase(R, th, hk)
    if fn == 'kbt':
        return gp.calc_KernBase_grad_th(R, th, hk)
    if fn == 'kba':
        return gp.calc_KernBase_grad_alpha(R, th, hk)
    if fn == 'kbx':
        return gp.calc_KernBase_hess_x(R, th, hk)
    if fn == 'kg':
        return gp.calc_KernGrad(R, th, hk) if m1 is None and m2 is None else gp.calc_KernGrad(R, th, hk, m1, m2)
    if fn in ('kgt', 'kga', 'kgx'):
        f = {'kgt': gp.calc_KernGrad_grad_th, 'kga': gp.calc_KernGrad_grad_alpha, 'kgx': gp.calc_KernGrad_grad_x}[fn]
        m = m2 if fn == 'kgx' else m1
        return f(R, th, hk) if m is None else f(R, th, hk, m)
    mod, cl, pre = OLD[kn]
    c = getattr(km[mod], cl)
    return getattr(c, pre + {'okg': 'calc_KernGrad', 'okgt': 'calc_KernGrad_grad_th', 'okgx': 'calc_KernGrad_grad_x', 'okga': 'calc_KernGrad_grad_alpha'}[fn])(R, th, hk)


def numeric(a):
    a = np.asarray(a)
    return a.astype(float)


def run(ctx):
    sh = ctx.shard
    GP, km, GI, ki = load(ctx)
    probe(ctx)
    if sh['fns'] == ['e2e']:
        for i, rng in ctx.cases(sh['n']):
            e2e(ctx, rng, GP, GI)
        return
    if sh['fns'] == ['rt']:
        for i, rng in ctx.cases(sh['n']):
            rtensor(ctx, rng, GP, GI)
        return
    kn = sh['kernel']
    plan = []
    for fn in sh['fns']:
        if fn.startswith('o') and not hasattr(km[OLD[kn][0]], OLD[kn][1]):
            continue
        plan += [(fn, v) for v in variants(fn, ctx.tier, sh['mode'])]
    gps = {ug: (GP(2, ug, kn, 'base'), GI(2, ug, kn, 'base')) for ug in (False, True)}
    for i, rng in ctx.cases(sh['n'] * len(plan)):
        fn, v = plan[i % len(plan)]
        one(ctx, rng, kn, fn, v, gps, km, ki)


def probe(ctx):
    """the sanitizers of this shard must be live"""
    import numba
    env = ctx.shard.get('env', {})

    @numba.jit(nopython=True)
    def dirty(n):
        return np.empty((n, n))

    @numba.jit(nopython=True)
    def over(a, i):
        return a[i]
    if env.get('MALLOC_PERTURB_'):
        if any(np.any(dirty(k) > 1e100) for k in (2, 3, 5, 7)):
            ctx.count('perturbed')
    if ctx.shard['mode'] == 'jitb':
        try:
            over(np.zeros(3), 7)
        except IndexError:
            ctx.count('bounds_sanitizer')


def points(rng, square, dmax=5, nmax=6):
    r = rng.random()
    if r < 0.08:
        dmax, nmax = (2, 40) if r < 0.04 else (11, 4)
    d = 1 if rng.random() < 0.2 else int(rng.integers(1, dmax + 1))
    n1 = 1 if rng.random() < 0.15 else int(rng.integers(1, nmax + 1))
    X = gen.gen_X(rng, n1, d)
    if square:
        Y = X
    else:
        n2 = 1 if rng.random() < 0.15 else int(rng.integers(1, nmax + 1))
        Y = gen.gen_X(rng, n2, d)
        if rng.random() < 0.3:
            Y[0] = X[0]
    return d, X, Y


def mask(rng, n):
    r = rng.random()
    if r < 0.15:
        return np.ones(n, bool)
    if r < 0.35:
        return np.zeros(n, bool)
    return rng.random(n) < 0.6


def one(ctx, rng, kn, fn, v, gps, km, ki):
    lr, lt, hpk, k1, k2 = v
    square = fn in ('kgt', 'kga', 'kbt', 'kba', 'okgt', 'okga') or rng.random() < 0.3
    d, X, Y = points(rng, square)
    n1, n2 = len(X), len(Y)
    R = X.T[:, :, None] - Y.T[:, None, :]
    th = (10.0 ** rng.uniform(-1, 0.8, d)) ** 2
    if rng.random() < 0.2:
        th = th * (10.0 ** rng.uniform(-2, 2, d)) ** 2
    al = 2.0 if hpk == 'i' else float(10.0 ** rng.uniform(-1, 1))
    if hpk == 'i':
        al = int(rng.integers(1, 9))
    m1 = mask(rng, n1) if k1 != '-' else None
    m2 = (m1 if square else mask(rng, n2)) if k2 != '-' else None
    if fn == 'kgx' and k2 == '-':
        m2 = None
    A = [Arr(R, lr, rng), Arr(th, lt, rng)]
    M1 = M2 = None
    if m1 is not None:
        M1 = Arr(m1, k1, rng)
        A.append(M1)
    if m2 is not None:
        M2 = Arr(m2, k2, rng)
        A.append(M2)
    hk = None
    if kn == 'RatQu':
        if hpk == 'a':
            H = Arr(np.array([al]), 'C', rng)
            A.append(H)
            hk = H.v
        else:
            hk = al
    mk = '%s%s' % tuple('n' if m is None else ('a' if m.all() else ('z' if not m.any() else 's')) for m in (m1, m2))
    inf = dict(routine=fn, kernel=kn, layout=v, d=d, n1=n1, n2=n2, masks=mk, mode=ctx.shard['mode'])
    sig = f'{fn}:{kn}:'
    gj, gi = gps[not fn.startswith('kb')]
    args = (A[0].v, A[1].v, hk, None if M1 is None else M1.v, None if M2 is None else M2.v)
    ok, K = ctx.guard(sig + 'compiled', call, gj, km, kn, fn, *args, info=inf)
    if not ok:
        return
    K = np.array(K, copy=True)
    ctx.count('canary')
    bad = [j for j, a in enumerate(A) if a.changed()]
    if bad:
        ctx.violation(sig + 'argument or canary modified', dict(argument=bad), info=inf)
    ok, K2 = ctx.guard(sig + 'compiled', call, gj, km, kn, fn, *args, info=inf)
    if ok:
        ctx.count('repeat')
        if np.asarray(K2).shape != K.shape or np.asarray(K2).tobytes() != K.tobytes():
            ctx.violation(sig + 'repeated call differs', dict(first=K.ravel()[:4], second=np.asarray(K2).ravel()[:4]), info=inf)
    ctx.count('finite')
    if K.dtype != np.float64:
        ctx.violation(sig + 'dtype', dict(dtype=str(K.dtype)), info=inf)
    if not np.all(np.isfinite(K)):
        ctx.violation(sig + 'non-finite result', dict(n_bad=int(np.sum(~np.isfinite(K))), where=np.argwhere(~np.isfinite(K))[0]), info=inf)

    cpy = lambda m: None if m is None else m.copy()
    def interp(Rp, thp, alp):
        a = alp if kn == 'RatQu' else None
        if kn == 'RatQu' and hpk == 'a':
            a = np.array([alp])
        return np.asarray(call(gi, ki, kn, fn, Rp, thp, a, cpy(m1), cpy(m2)), dtype=float)
    ok, W = ctx.guard(sig + 'interpreted', interp, R.copy(), th.copy(), al, info=inf)
    if not ok:
        return
    if not np.all(np.isfinite(W)):
        ctx.violation(sig + 'non-finite interpreted result', dict(n_bad=int(np.sum(~np.isfinite(W)))), info=inf)
        return
    amp = np.zeros(W.shape)
    for _ in range(3):
        p = lambda a: a * (1 + 1e-9 * rng.choice([-1, 1], np.shape(a)) * rng.uniform(0.5, 1, np.shape(a)))
        amp = np.maximum(amp, np.abs(interp(p(R), p(th), float(p(al))) - W))
    # spread within the last axis: single samples can cancel by chance
    if amp.size:
        amp = np.maximum(amp, 0.05 * amp.max(axis=-1, keepdims=True))
    ctx.close(fn if not fn.startswith('o') else 'o', K, W, 1e-12 * np.abs(W) + 1e-3 * amp + 1e-300, sig + 'compiled differs from interpreted', info=inf)
    ctx.count('lay:' + lr)
    ctx.count('hp:' + hpk)
    for m in (m1, m2):
        if m is not None:
            ctx.count('mask:' + ('all' if m.all() else ('zero' if not m.any() else 'some')))
    if n1 == 1 or n2 == 1:
        ctx.count('one_point')
    if d == 1:
        ctx.count('one_dim')
    ctx.nontrivial((fn, kn, v, mk, min(d, 3), min(n1, 3), min(n2, 3), ctx.shard['mode']))
    ctx.sample(inf)


def rtensor(ctx, rng, GP, GI):
    d, X, Y = points(rng, rng.random() < 0.3, nmax=9)
    lx, ly = str(rng.choice(list('CFA'))), str(rng.choice(list('CFA')))
    AX = Arr(X, lx, rng)
    AY = AX if (Y is X and rng.random() < 0.5) else Arr(Y, ly, rng)
    inf = dict(d=d, n1=len(X), n2=len(Y), layouts=lx + ly)
    gj, gi = GP(d, False, 'SqExp', 'base'), GI(d, False, 'SqExp', 'base')
    e = () if rng.random() < 0.3 else (1,)
    ok, R = ctx.guard('rt:compiled', gj.calc_Rtensor, AX.v, AY.v, *e, info=inf)
    if not ok:
        return
    ctx.count('canary')
    if AX.changed() or AY.changed():
        ctx.violation('rt:argument or canary modified', dict(), info=inf)
    ctx.count('finite')
    if not np.all(np.isfinite(R)):
        ctx.violation('rt:non-finite result', dict(R=R), info=inf)
    ok, R2 = ctx.guard('rt:compiled', gj.calc_Rtensor, AX.v, AY.v, *e, info=inf)
    ctx.count('repeat')
    if ok and R2.tobytes() != R.tobytes():
        ctx.violation('rt:repeated call differs', dict(), info=inf)
    ok, W = ctx.guard('rt:interpreted', gi.calc_Rtensor, X.copy(), Y.copy(), *e, info=inf)
    if ok:
        ctx.close('rt', R, W, 2e-16 * np.abs(W), 'rt:compiled differs from interpreted', info=inf)
    ctx.nontrivial(('rt', lx, ly, min(d, 3), min(len(X), 3), min(len(Y), 3), ctx.shard['mode']))


# ------------------------------------------------------------------ whole models
SKIP = ('cond_grad', 'condg', 'val', 'grad')        # the gradient of a multiple eigenvalue is not unique


def leaves(v, name=''):
    """floating-point leaves of nested results"""
    if dataclasses.is_dataclass(v):
        v = vars(v)
    if isinstance(v, dict):
        for k in v:
            if k not in SKIP:
                yield from leaves(v[k], name + '.' + str(k))
    elif isinstance(v, (tuple, list)):
        for k, x in enumerate(v):
            yield from leaves(x, '%s[%d]' % (name, k))
    elif isinstance(v, str):
        yield name, v
    elif isinstance(v, (float, np.floating)) or (isinstance(v, np.ndarray) and v.dtype.kind == 'f'):
        yield name, np.asarray(v, float)


def outputs(ctx, GP, sc, Xe, inf):
    w = c14.Watch(ctx, inf)
    gp = gen.mk_gp(sc, GP)
    gen.put_data(gp, sc)
    gp.init_optz_surr(1)
    gp.set_hpara('set', 0, gen.mk_hp(gp, sc.hp))
    ip = gp.hp_info_optz_lkd
    vec = c14.mkvec(ip, sc.hp, None)
    return dict(leaves(c14.results(w, gp, sc, Xe, vec, sc.hp)))


def e2e(ctx, rng, GP, GI):
    at = ('float', 'array', 'int')
    sc = gen.gen(rng, kernels=[ctx.shard['kernel']], noises=['zero', 'known', 'hetero', 'unk'], cond_targets=[1e4], moderate=True, alpha_types=at, nmax=6, nmin=2, allow_dup=False)
    Xe = gen.eval_points(rng, sc, 3)
    # keep away from the data, where the standard deviation is not smooth
    Xe = Xe + 0.05 * np.maximum(np.ptp(sc.X, axis=0), 1e-2 * sc.scl) * rng.uniform(0.5, 1, Xe.shape)
    inf = dict(sc=sc.short(), opts=sc.opts)
    res = []
    for nm, G in (('interpreted', GI), ('compiled', GP)):
        ok, r = ctx.guard('e2e:' + nm, outputs, ctx, G, sc, Xe.copy(), inf, info=inf)
        if not ok:
            return
        res.append(r)
    a, b = res
    ctx.count('e2e')
    if set(a) != set(b):
        ctx.violation('e2e:outputs', dict(interpreted=sorted(set(a) - set(b)), compiled=sorted(set(b) - set(a))), info=inf)
        return
    for k, W in a.items():
        nm = k.split('.')[1].split('[')[0]
        if isinstance(W, str) or isinstance(b[k], str):
            if not (isinstance(W, str) and isinstance(b[k], str) and W == b[k]):
                ctx.violation('e2e:%s:raises in one version only' % nm, dict(interpreted=W, compiled=b[k], name=k), info=inf)
            elif W not in ('raised',):
                ctx.count('e2e_both:%s:%s' % (nm, W))
            continue
        fin = np.isfinite(W)
        ctx.count('e2e_values', W.size)
        if W.shape != b[k].shape or not np.array_equal(fin, np.isfinite(b[k])):
            ctx.violation('e2e:%s:shape or finite in one version only' % nm, dict(name=k), info=inf)
            continue
        ref = np.max(np.abs(W[fin])) if fin.any() else 0
        ctx.close('e2e:' + nm, b[k][fin], W[fin], 1e-8 * ref + 1e-10 * scale(nm, sc), 'e2e:' + nm, info=dict(inf, leaf=k))
    ctx.nontrivial(('e2e', sc.cls(), ctx.shard['mode']))


def scale(nm, sc):
    """magnitudes that cancel in results which are zero exactly"""
    if nm.startswith('eval_model'):
        sp = np.ptp(sc.X, axis=0)
        L = np.min(sp[sp > 0]) if np.any(sp > 0) else 1.0
        m = 1 + np.max(np.abs(sc.f)) + (np.max(np.abs(sc.g)) if sc.g is not None and sc.g.size else 0) + np.sqrt(sc.hp['varK'])
        return m * (1 + 1 / L ** 2)
    if nm.startswith('calc_lkd'):
        return 1e3
    return 1e-6

"""C11: Rescaling is an exact, invertible change of units (stateful shadow model)."""
import numpy as np
from .. import gen, ref

LD = ref.LD
E = ref.EPS
RULE = ('case = random Rescaling object (dimension, points, best index, shift option, set_vmin/set_vmax/None, dist_set) and a random sequence of set_xscale_data, set_obj_data, '
        'set_obj_scaling, set_nlc_data, set_nlc_scaling, set_boxcon, set_lincon; after every operation a shadow model checks every stored scaled quantity, '
        'both directions of every map and the constraint equivalence at points next to the boundary; class = (options, operation, data attached)')
ASSUMPTIONS = ['coincident points with set_vmin use the documented floor tol_min_dist_x, so the distance is not compared there; identical points with set_vmax are not generated']


def shards(tier):
    k, n = (8, 800) if tier == 'quick' else (24, 12000)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'cmp:x_scl': 8000, 'cmp:dist_vmin': 2000, 'cmp:dist_vmax': 2000, 'cmp:ratio': 4000, 'cmp:obj_scl': 4000, 'cmp:nlc_scl': 2000,
            'box_points': 8000, 'lin_points': 8000, 'cmp:roundtrip_x': 8000, 'cmp:obj_maps': 8000, 'cmp:nlc_maps': 4000, 'narrow': 200, 'constant': 40, 'many_points': 30}


def cpy(a):
    return None if a is None else np.array(a, copy=True)


class Shadow:
    def __init__(self):
        self.obj = self.nlc = self.box = self.lin = None


def run(ctx):
    from gpgradpy.src.base.Rescaling import Rescaling
    for i, rng in ctx.cases(ctx.shard['n']):
        case(ctx, rng, Rescaling)


def sup(A):
    """copy handed to the object, in a random layout"""
    return None if A is None else np.array(A, copy=True)


def case(ctx, rng, R):
    dim = int(rng.integers(1, 5))
    n = int(rng.integers(1, 8))
    if rng.random() < 0.08:
        dim, n = (int(rng.integers(5, 13)), n) if rng.random() < 0.5 else (int(rng.integers(1, 9)), int(rng.integers(12, 60) if rng.random() < 0.6 else rng.integers(60, 260)))
        ctx.count('many_points', n > 100)
    scl = 10.0 ** rng.uniform(-2, 2, dim) if rng.random() < .5 else np.ones(dim)
    X = (rng.standard_normal((n, dim)) + rng.uniform(-3, 3, dim)) * scl
    if n > 1 and rng.random() < 0.06:
        X[1] = X[0]
    method = [None, 'set_vmin', 'set_vmax'][int(rng.integers(3))]
    if method == 'set_vmax' and n > 1 and np.ptp(X, axis=0).max() == 0:
        method = None
    dist = None if rng.random() < 0.4 else float(10 ** rng.uniform(-2, 2))
    idx = None if rng.random() < 0.4 else int(rng.integers(n))
    ush = bool(rng.random() < 0.6)
    X0 = X.copy()
    info = 'n%d/d%d/%s/dist=%s/idx=%s/shift=%s' % (n, dim, method, dist, idx, ush)
    kw = {}
    if idx is not None or rng.random() < .5:
        kw['idx_xbest'] = idx
    if not ush or rng.random() < .5:
        kw['use_x_shift'] = ush
    kw.update(x_scl_method=method, dist_set=dist)
    ok, S = ctx.guard('init', R, X, info=info, **kw)
    if not ok:
        return
    sh = Shadow()
    sh.X, sh.method, sh.idx, sh.ush, sh.n, sh.dim = X0, method, n - 1 if idx is None else idx, ush, n, dim
    if dist is None and rng.random() < 0.3:      # class defaults are options
        S.vmin_dflt = float(10 ** rng.uniform(-1, 1))
        S.vmax_dflt = float(10 ** rng.uniform(-1, 1))
        S.set_xscale_data()
    sh.dist = dist if dist is not None else (S.vmin_dflt if method == 'set_vmin' else S.vmax_dflt)
    sh.shift, sh.rat = (X0[sh.idx] if ush else np.zeros(dim)), np.ones(dim)
    check(ctx, rng, S, sh, 'init', info)
    ops = ['x', 'obj', 'nlc', 'box', 'lin', 'x', 'objs', 'nlcs', 'x']
    rng.shuffle(ops)
    for op in ops:
        if not step(ctx, rng, S, sh, op, info):
            continue
        check(ctx, rng, S, sh, op, info)
    if not np.array_equal(X, X0):
        ctx.violation('input_modified:x', None, info=info)
    if S.get_init_x() is not X and not np.array_equal(S.get_init_x(), X0):
        ctx.violation('get_init_x', None, info=info)
    ctx.nontrivial((n, dim, method, dist is None, ush, idx is None, sh.obj is None, sh.nlc is None, sh.box is None, sh.lin is None))
    ctx.sample(dict(setup=info, xvec_scale=S.xvec_scale, ops=list(map(str, ops))))


def step(ctx, rng, S, sh, op, info):
    n, dim = sh.n, sh.dim
    if op == 'x':
        a = rng.random()
        shift = None if a < 0.3 else rng.standard_normal(dim) * np.std(sh.X)
        rat = None if rng.random() < 0.3 else 10.0 ** rng.uniform(-1.5, 1.5, dim)
        ok, _ = ctx.guard('set_xscale_data', S.set_xscale_data, sup(shift), sup(rat), info=info)
        if not ok:
            return False
        sh.shift = shift if shift is not None else (sh.X[sh.idx] if sh.ush else np.zeros(dim))
        sh.rat = rat if rat is not None else np.ones(dim)
    elif op == 'obj':
        amp = 10.0 ** rng.uniform(-3, 4)
        d = [amp * (rng.standard_normal(n) + rng.uniform(-3, 3)), amp * rng.uniform(0, 1, n), amp * rng.standard_normal((n, dim)), amp * rng.uniform(0, 1, (n, dim))]
        u = rng.random()
        if u < 0.15:        # values that hardly differ
            d[0] = amp * (float(rng.uniform(-3, 3)) + 10.0 ** rng.uniform(-12, -4) * rng.standard_normal(n))
            ctx.count('narrow')
        elif u < 0.19:
            d[0] = np.full(n, amp * float(rng.uniform(-3, 3)))
            ctx.count('constant')
        if rng.random() < 0.3:
            d[1] = None
        if rng.random() < 0.3:
            d[2] = d[3] = None
        elif rng.random() < 0.3:
            d[3] = None
        us = bool(rng.random() < 0.5)
        m = 'dflt_max' if rng.random() < 0.6 else None
        args = [sup(v) for v in d]
        ok, _ = ctx.guard('set_obj_data', S.set_obj_data, *args, use_obj_shift=us, obj_scl_method=m, info=info)
        if not ok:
            return False
        shift = d[0][sh.idx] if us else 0.0
        rg = max(np.ptp(d[0].astype(LD)), LD(S.tol_min_range_obj))
        scale = LD(1) if n == 1 or m is None else LD(S.rangeobj_max_dflt) / rg
        sh.obj = dict(d=d, args=args, shift=float(shift), scale=scale)
    elif op == 'objs':
        if sh.obj is None:
            return False
        a, b = rng.random() < 0.7, rng.random() < 0.7
        v = float(rng.standard_normal() * 5)
        w = float(10 ** rng.uniform(-2, 2))
        ok, _ = ctx.guard('set_obj_scaling', S.set_obj_scaling, v if a else None, w if b else None, info=info)
        if not ok:
            return False
        if a:
            sh.obj['shift'] = v
        if b:
            sh.obj['scale'] = LD(w)
    elif op == 'nlc':
        nc = int(rng.integers(1, 4 if rng.random() < 0.9 else 9))
        amp = 10.0 ** rng.uniform(-3, 4)
        d = [amp * (rng.standard_normal((n, nc)) + rng.uniform(-2, 2)), amp * rng.uniform(0, 1, (n, nc)), amp * rng.standard_normal((n, nc, dim)), amp * rng.uniform(0, 1, (n, nc, dim))]
        if rng.random() < 0.3:
            d[1] = None
        if rng.random() < 0.3:
            d[2] = d[3] = None
        us = bool(rng.random() < 0.5)
        m = 'obj_scl' if sh.obj is not None and rng.random() < 0.6 else None
        args = [sup(v) for v in d]
        ok, _ = ctx.guard('set_nlc_data', S.set_nlc_data, *args, use_nlc_shift=us, nlc_scl_method=m, info=info)
        if not ok:
            return False
        sh.nlc = dict(d=d, args=args, nc=nc, shift=d[0][sh.idx].copy() if us else np.zeros(nc), scale=LD(1) if n == 1 or m is None else LD(float(S.obj_scale)))
    elif op == 'nlcs':
        if sh.nlc is None:
            return False
        a, b = rng.random() < 0.7, rng.random() < 0.7
        v = rng.standard_normal(sh.nlc['nc']) * 5
        w = float(10 ** rng.uniform(-2, 2))
        ok, _ = ctx.guard('set_nlc_scaling', S.set_nlc_scaling, sup(v) if a else None, w if b else None, info=info)
        if not ok:
            return False
        if a:
            sh.nlc['shift'] = v
        if b:
            sh.nlc['scale'] = LD(w)
    elif op == 'box':
        m = sh.X.mean(axis=0)
        w = np.std(sh.X) + np.abs(m) * 0.1 + 1e-6
        lb, ub = m - w * rng.uniform(0.1, 3, dim), m + w * rng.uniform(0.1, 3, dim)
        if rng.random() < 0.3:
            lb[int(rng.integers(dim))] = -np.inf
        if rng.random() < 0.3:
            ub[int(rng.integers(dim))] = np.inf
        args = [sup(lb), sup(ub)]
        ok, _ = ctx.guard('set_boxcon', S.set_boxcon, *args, info=info)
        if not ok:
            return False
        sh.box = dict(d=[lb, ub], args=args)
    elif op == 'lin':
        k = int(rng.integers(1, 4))
        A = rng.standard_normal((k, dim)) * 10.0 ** rng.uniform(-2, 2)
        c = A @ sh.X.mean(axis=0)
        lb, ub = c - rng.uniform(0.1, 3, k), c + rng.uniform(0.1, 3, k)
        if rng.random() < 0.3:
            lb[int(rng.integers(k))] = -np.inf
        if rng.random() < 0.3:
            ub[int(rng.integers(k))] = np.inf
        args = [sup(A), sup(lb), sup(ub)]
        ok, _ = ctx.guard('set_lincon', S.set_lincon, *args, info=info)
        if not ok:
            return False
        sh.lin = dict(d=[A, lb, ub], args=args)
    return True


def check(ctx, rng, S, sh, op, info):
    n, dim = sh.n, sh.dim
    s = np.asarray(S.xvec_scale)
    if s.shape != (dim,) or not np.all(np.isfinite(s)) or not np.all(s > 0):
        ctx.violation('scale_invalid:%s' % op, dict(s=s), info=info)
        return
    ctx.close('x_shift', S.x_shift, sh.shift, 4 * E * np.abs(sh.shift), 'x_shift:' + op, info=info)
    ctx.close('ratio', s.astype(LD) / s[0], sh.rat.astype(LD) / sh.rat[0], 20 * E * sh.rat / sh.rat[0], 'scale_ratio:' + op, info=info)
    if sh.method is None or n == 1:
        ctx.close('unit', s, sh.rat, 4 * E * sh.rat, 'scale_changed_without_method:' + op, info=info)
    sl = s.astype(LD)
    Xl = (sh.X.astype(LD) - sh.shift.astype(LD)) * sl
    tx = 6 * E * (np.abs(sh.X) + np.abs(sh.shift)) * s
    ctx.close('x_scl', S.get_scl_x(), Xl, tx, 'x_scl:' + op, info=info)
    if n > 1 and sh.method is not None:
        Dm = np.sqrt(np.sum((Xl[:, None] - Xl[None]) ** 2, axis=2))
        iu = np.triu_indices(n, 1)
        v = Dm[iu].min() if sh.method == 'set_vmin' else Dm[iu].max()
        if not (sh.method == 'set_vmin' and Dm[iu].min() <= 1e-9 * Dm[iu].max()):
            ctx.close('dist_' + sh.method[4:], v, sh.dist, 20 * E * sh.dist + 40 * tx.max(), 'distance:%s:%s' % (sh.method, op), info=info)
    xs, Rt = S.get_scl_x_w_dist()
    ctx.close('x_scl2', xs, Xl, tx, 'x_scl_w_dist:' + op, info=info)
    ctx.close('Rtensor', Rt, ref.diffs(Xl, Xl), 4 * tx.max(), 'Rtensor_scl:' + op, info=info)
    # round trips and distances
    P = sh.X.mean(axis=0) + rng.standard_normal((3, dim)) * (np.std(sh.X) + 1e-3)
    P0 = P.copy()
    z = S.x_init_2_scl(P)
    tp = 6 * E * (np.abs(P) + np.abs(sh.shift))
    ctx.close('x_map', z, (P.astype(LD) - sh.shift) * sl, tp * s, 'x_init_2_scl', info=info)
    ctx.close('roundtrip_x', S.x_scl_2_init(z), P, 2 * tp, 'x_roundtrip', info=info)
    ctx.close('x_map1', S.x_init_2_scl(P[1]), z[1], 2 * tp[1] * s, 'x_init_2_scl:1d', info=info)
    ctx.close('roundtrip_x1', S.x_scl_2_init(z[2]), P[2], 2 * tp[2], 'x_roundtrip:1d', info=info)
    d = abs(float(rng.standard_normal()))
    ctx.close('dist_rt', S.dist_scl_2_init(S.dist_init_2_scl(d)), d, 20 * E * d, 'dist_roundtrip', info=info)
    if not np.array_equal(P, P0):
        ctx.violation('input_modified:map', None, info=info)
    # box
    if sh.box is not None:
        lb, ub = sh.box['d']
        for a, b in zip(S.get_init_boxcon(), (lb, ub)):
            if not np.array_equal(a, b):
                ctx.violation('get_init_boxcon:' + op, None, info=info)
        l2, u2 = S.get_scl_boxcon()
        mag = (np.abs(sh.X).max() + np.abs(sh.shift))
        for k in range(dim):
            for lim, sgn in ((lb[k], 1), (ub[k], -1)):
                for inside in (1, -1):
                    x = sh.X.mean(axis=0)
                    if np.isfinite(lim):
                        x[k] = lim + sgn * inside * 1e-7 * (mag[k] + abs(lim))
                    else:
                        x[k] = -sgn * 1e6 * mag[k]
                    w = bool((x[k] >= lb[k]) and (x[k] <= ub[k]))
                    zz = S.x_init_2_scl(x)
                    g = bool((zz[k] >= l2[k]) and (zz[k] <= u2[k]))
                    ctx.count('box_points')
                    if w != g:
                        ctx.violation('boxcon:' + op, dict(x=x[k], lb=lb[k], ub=ub[k], z=zz[k], lbs=l2[k], ubs=u2[k]), info=info)
    if sh.lin is not None:
        A, lb, ub = sh.lin['d']
        for a, b in zip(S.get_init_lincon(), (A, lb, ub)):
            if not np.array_equal(a, b):
                ctx.violation('get_init_lincon:' + op, None, info=info)
        A2, l2, u2 = S.get_scl_lincon()
        for k in range(A.shape[0]):
            x = P[0].copy()
            for lim, sgn in ((lb[k], 1), (ub[k], -1)):
                if not np.isfinite(lim):
                    if np.isfinite(l2[k] if sgn > 0 else u2[k]):
                        ctx.violation('lincon_infinite:' + op, None, info=info)
                    continue
                mg = np.abs(A[k]) @ (np.abs(x) + np.abs(sh.shift)) + abs(lim)
                for inside in (1, -1):
                    # move x along A[k] onto the boundary, then off it
                    t = (lim + sgn * inside * 1e-6 * mg - A[k] @ x) / (A[k] @ A[k])
                    xx = x + t * A[k]
                    v = A[k].astype(LD) @ xx.astype(LD)
                    w = bool(lb[k] <= v <= ub[k])
                    sl_ = min(abs(v - q) for q in (lb[k], ub[k]) if np.isfinite(q))
                    if sl_ < 1e3 * E * (np.abs(A[k]) @ (np.abs(xx) + np.abs(sh.shift)) + abs(lim)):
                        continue
                    v2 = A2[k] @ S.x_init_2_scl(xx)
                    g = bool(l2[k] <= v2 <= u2[k])
                    ctx.count('lin_points')
                    if w != g:
                        ctx.violation('lincon:' + op, dict(v=float(v), lb=lb[k], ub=ub[k], v2=v2, l2=l2[k], u2=u2[k]), info=info)
    # objective
    if sh.obj is not None:
        o = sh.obj
        ctx.close('obj_scale', S.obj_scale, o['scale'], 10 * E * float(o['scale']), 'obj_scale:' + op, info=info)
        ctx.close('obj_shift', S.obj_shift, o['shift'], 4 * E * np.abs(o['shift']), 'obj_shift:' + op, info=info)
        c = LD(float(S.obj_scale))
        init = S.get_init_obj_data()
        got = S.get_scl_obj_data()
        maps(ctx, 'obj', got, init, o['d'], o['shift'], c, sl, op, info, 2)
        m = [rng.standard_normal(2) * 3, rng.uniform(0, 1, 2), rng.standard_normal((2, dim)), rng.standard_normal((2, dim)), rng.standard_normal((dim, dim)), rng.standard_normal((dim, dim))]
        if rng.random() < 0.3:
            m[int(rng.integers(6))] = None
        fwd = S.obj_init_2_scl(*[cpy(v) for v in m])
        inv = S.obj_scl_2_init(*[cpy(v) for v in m])
        back = S.obj_scl_2_init(*fwd)
        both(ctx, 'obj', m, fwd, inv, back, o['shift'], c, sl, info, 2)
    if sh.nlc is not None:
        o = sh.nlc
        ctx.close('nlc_scale', S.nlc_scale, o['scale'], 10 * E * float(o['scale']), 'nlc_scale:' + op, info=info)
        ctx.close('nlc_shift', S.nlc_shift, o['shift'], 4 * E * np.abs(o['shift']), 'nlc_shift:' + op, info=info)
        c = LD(float(S.nlc_scale))
        maps(ctx, 'nlc', S.get_scl_nlc_data(), S.get_init_nlc_data(), o['d'], o['shift'], c, sl, op, info, 3)
        nc = o['nc']
        m = [rng.standard_normal((2, nc)) * 3, rng.uniform(0, 1, (2, nc)), rng.standard_normal((2, nc, dim)), rng.standard_normal((2, nc, dim)),
             rng.standard_normal((nc, dim, dim)), rng.standard_normal((nc, dim, dim))]
        if rng.random() < 0.3:
            m[int(rng.integers(1, 6))] = None
        fwd = S.nlc_init_2_scl(*[cpy(v) for v in m])
        inv = S.nlc_scl_2_init(*[cpy(v) for v in m])
        back = S.nlc_scl_2_init(*fwd)
        both(ctx, 'nlc', m, fwd, inv, back, o['shift'], c, sl, info, 3)


def fac(k, sl, c):
    """factor from init to scaled for item k of (mu, sig, dmu, dsig, d2mu, d2sig)"""
    if k < 2:
        return c
    if k < 4:
        return c / sl
    return c / (sl[:, None] * sl[None, :])


def fwd_ref(k, v, shift, sl, c):
    v = v.astype(LD)
    if k == 0:
        return (v - np.asarray(shift, LD)) * c, 6 * E * ((np.abs(v) + np.abs(np.asarray(shift, LD))) * c).astype(float)
    r = v * fac(k, sl, c)
    return r, 20 * E * np.abs(r).astype(float)


def maps(ctx, nm, got, init, d, shift, c, sl, op, info, gd):
    for k in range(4):
        if d[k] is None:
            if got[k] is not None or init[k] is not None:
                ctx.violation('%s_none:%s' % (nm, op), dict(k=k), info=info)
            continue
        if init[k] is None or not np.array_equal(init[k], d[k]):
            ctx.violation('%s_init_changed:%s' % (nm, op), dict(k=k), info=info)
            continue
        r, t = fwd_ref(k, d[k], shift, sl, c)
        if got[k] is None:
            ctx.violation('%s_missing:%s' % (nm, op), dict(k=k), info=info)
            continue
        ctx.close(nm + '_scl', got[k], r, t, '%s_scl:%s:%s' % (nm, ['val', 'std', 'grad', 'std_grad'][k], op), info=info)


def both(ctx, nm, m, fwd, inv, back, shift, c, sl, info, gd):
    lab = ['mu', 'sig', 'dmudx', 'dsigdx', 'd2mudx2', 'd2sigdx2']
    for k in range(6):
        if m[k] is None:
            if fwd[k] is not None or inv[k] is not None:
                ctx.violation('%s_map_none' % nm, dict(k=k), info=info)
            continue
        if fwd[k] is None or inv[k] is None or back[k] is None:
            ctx.violation('%s_map_missing' % nm, dict(k=k), info=info)
            continue
        r, t = fwd_ref(k, m[k], shift, sl, c)
        ctx.close(nm + '_maps', fwd[k], r, t, '%s_init_2_scl:%s' % (nm, lab[k]), info=info)
        if k == 0:
            w = m[k].astype(LD) / c + np.asarray(shift, LD)
            t = 6 * E * (np.abs(m[k]) / c + np.abs(np.asarray(shift, LD))).astype(float)
        else:
            w = m[k].astype(LD) / fac(k, sl, c)
            t = 20 * E * np.abs(w).astype(float)
        ctx.close(nm + '_maps', inv[k], w, t, '%s_scl_2_init:%s' % (nm, lab[k]), info=info)
        ctx.close(nm + '_back', back[k], m[k], 40 * E * (np.abs(m[k]) + (np.abs(np.asarray(shift)) if k == 0 else 0)), '%s_roundtrip:%s' % (nm, lab[k]), info=info)

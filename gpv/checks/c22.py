"""C22: the rescaling iteration of the rescale_* methods."""
import numpy as np
from .. import gen
from . import c10
from .c08 import to_vec, flags
from .c05 import names

RULE = ('case = random data set and history for rescale_origin or rescale_eta_vary with cond_vreq_max_iter 1..6 and a random stopping tolerance; set_hpara("optz", i) runs with a recorder around the optimizer '
        '(starting point, result, bounds and the scale vector of the data at that moment); the recorded sequence of rescalings is compared with the definition of the iteration; '
        'class = (kernel, method, use_grad, dim, n, noise, rounds made, limit, which round was kept)')
ASSUMPTIONS = ['distance to isotropy of a round = sum of squares of log10(theta) about its mean, at the solution the next round starts from (or, for the round that is kept, at the final theta)',
               'the minimum distance kept by a rescaling is the one required by rescale_origin, and vmin_rescale_eta_vary for rescale_eta_vary']


def shards(tier):
    k, n = (8, 70) if tier == 'quick' else (24, 700)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'optz_runs': 250, 'rounds': 500, 'cmp:vmin': 200, 'cmp:same_kernel': 150, 'cmp:start': 150, 'follows': 150, 'kept': 250, 'stop_tol': 20, 'stop_limit': 60, 'closest': 80, 'kept_first': 10, 'kept_later': 30,
            'cmp:first_scale': 250, 'single_round': 30, 'many_points': 2}


def run(ctx):
    import gpgradpy.src.optz.OptzLkd  # noqa
    c10.hook()
    for i, rng in ctx.cases(ctx.shard['n']):
        case(ctx, rng)


def aniso(lt):
    return float(np.sum((lt - lt.mean()) ** 2))


def mind(X):
    D = np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(-1))
    return float(D[np.triu_indices(len(X), 1)].min())


def case(ctx, rng):
    big = rng.random() < 0.02
    ctx.count('many_points', big)
    sc = gen.gen(rng, nmin=20 if big else 2, nmax=40 if big else 7, dmin=1 if rng.random() < 0.1 else 2, dmax=4, ndata_max=120 if big else 26, eta_const=0.95, allow_dup=False, moderate=True, use_grad=True, wcs=['rescale_origin', 'rescale_origin', 'rescale_eta_vary'],
                 noises=['zero', 'zero', 'known', 'hetero', 'unk_f', 'unk_g', 'unk', 'f_only', 'g_only'], cond_targets=[1e10, 1e8, 1e6])
    o = c10.options(rng, sc)
    o['cond_vreq_max_iter'] = int(rng.integers(1, 7))
    o['cond_vreq_iter_tol'] = float(10 ** rng.uniform(-3, 1))
    o['optz_iter_max'] = int(rng.choice([2, 5, 15, 40]))
    o.pop('optz_mtd', None)
    f = 1.0
    if sc.wc == 'rescale_eta_vary' and rng.random() < 0.5:
        f = o['vmin_rescale_eta_vary'] = float(10 ** rng.uniform(-0.5, 0.7))
    i = int(rng.integers(1, 5))
    rows = c10.history(rng, None, sc, i)
    inf = sc.short() + '/maxit=%d tol=%.1e' % (o['cond_vreq_max_iter'], o['cond_vreq_iter_tol'])
    gp = c10.build(sc, o, rows, i)
    s_first = np.array(gp.DataScl.xvec_scale, float)
    w = gen.working(sc)
    ctx.close('first_scale', s_first, f * w['s'].astype(float), 1e-9 * f * w['s'].astype(float), 'first_scale:' + sc.wc, info=inf)
    calls = c10.once(ctx, gp, i, inf)
    if not calls:
        return
    judge(ctx, sc, o, gp, i, calls, s_first, inf)


def judge(ctx, sc, o, gp, i, calls, s_first, inf):
    d, n = sc.dim, sc.n
    optk = o['b_optz_hp_kernel'] and sc.kernel == 'RatQu'
    nm = names(sc, optk)
    bl = flags(gp, sc, optk)
    t = sc.wc
    rounds = []
    for c in calls:     # consecutive runs on the same scaling
        if rounds and np.array_equal(rounds[-1][0]['scale'], c['scale']):
            rounds[-1].append(c)
        else:
            rounds.append([c])
    nx = calls[0]['x0'].size
    lim = o['cond_vreq_max_iter']
    ctx.count('rounds', len(rounds))
    if not np.array_equal(rounds[0][0]['scale'], s_first):
        ctx.violation('first_round_scale:' + t, dict(got=rounds[0][0]['scale'], want=s_first), info=inf)
    if len(rounds) > lim:
        ctx.violation('too_many_rounds:' + t, dict(rounds=len(rounds), limit=lim), info=inf)
        return
    if lim == 1:
        ctx.count('single_round')
    logth = lambda v: v[:d] if gp.optz_log_hp_theta else np.log10(v[:d])    # noqa
    vmin = gen.vreq(n, d) if sc.wc == 'rescale_origin' else float(gp.vmin_rescale_eta_vary)
    lb, ub = np.asarray(calls[0]['bounds'].lb, float), np.asarray(calls[0]['bounds'].ub, float)
    dist = []
    for k, r in enumerate(rounds):
        s = r[0]['scale']
        for c in r:
            if not (np.array_equal(c['bounds'].lb, lb) and np.array_equal(c['bounds'].ub, ub)):
                ctx.violation('bounds_changed:' + t, None, info=inf)
        if k:
            if len(r) != 1:
                ctx.violation('runs_per_round:' + t, dict(runs=len(r)), info=inf)
            ctx.close('vmin', mind(sc.X * s), vmin, 1e-9 * vmin, 'min_distance:' + t, info=inf)
        if k + 1 < len(rounds):
            s2 = rounds[k + 1][0]['scale']
            # theta of this round up to a factor, from the rescaling it caused
            lt = 2 * np.log10(s2 / s)
            cand = [c[w] for c in r for w in ('x', 'x0')]
            res = [np.max(np.abs((logth(v) - logth(v).mean()) - (lt - lt.mean()))) for v in cand]
            j = int(np.argmin(res))
            ctx.count('follows')
            if not res[j] <= 1e-8 * (1 + np.max(np.abs(lt))):
                ctx.violation('rescaling_not_from_solution:' + t, dict(residual=res[j]), info=inf)
                return
            dist.append(aniso(lt))
            # the next start is the same kernel in the new units, clipped to the bounds; other hyperparameters are kept
            v, x0n = cand[j], rounds[k + 1][0]['x0']
            want = np.array(v, float)
            ltn = logth(v) + 2 * np.log10(s / s2)       # theta * scale^2 is unchanged
            ctx.close('same_kernel', ltn, np.full(d, ltn.mean()), 1e-8 * (1 + np.max(np.abs(ltn)) + np.max(np.abs(lt))), 'isotropic:' + t, info=inf)
            want[:d] = ltn if gp.optz_log_hp_theta else 10 ** ltn
            sibling = [u for u, q in zip(cand, res) if q <= 1e-8 * (1 + np.max(np.abs(lt)))]
            if all(np.array_equal(u[d:], v[d:]) for u in sibling):
                wc = np.clip(want, lb, ub)
                ctx.close('start', x0n, wc, 1e-8 * (1 + np.abs(wc)), 'next_start:' + t, info=inf)
    # the round that was kept
    fs = np.array(gp.DataScl.xvec_scale, float)
    kept = [k for k, r in enumerate(rounds) if np.allclose(r[0]['scale'], fs, rtol=1e-12)]
    ctx.count('kept')
    if not kept:
        ctx.violation('scale_without_round:' + t, dict(scale=fs), info=inf)
        return
    k = kept[0]
    if not np.array_equal(gp.xvec_rescaling_all[i], fs):
        ctx.violation('row_scale:' + t, dict(got=gp.xvec_rescaling_all[i], want=fs), info=inf)
    hp = c10.hpd(gp.hp_vals)
    vec = to_vec(gp, sc, hp, optk)
    ix = [q for q in range(nx) if nm[q] != 'varK'] if len(nm) == nx else list(range(nx))
    vec = np.where(bl, np.log10(vec), vec)
    res = [np.max(np.abs(c[w][ix] - vec[ix]) / (1 + np.abs(vec[ix]))) for c in rounds[k] for w in ('x', 'x0')]
    if not min(res) <= 1e-8:
        ctx.violation('kept_solution_of_other_round:' + t, dict(residual=min(res), round=k), info=inf)
        return
    ltf = np.log10(hp['theta'])
    df = aniso(ltf)
    ctx.count('kept_first' if k == 0 else 'kept_later')
    eps = 1e-7 * (1 + float(np.dot(ltf, ltf)))
    if k < len(dist) and abs(dist[k] - df) > eps:
        ctx.violation('kept_theta_not_used_for_rescaling:' + t, dict(kept=df, used=dist[k]), info=inf)
    if dist:
        ctx.count('closest')
        if df > min(dist) + eps:
            ctx.violation('not_closest_to_isotropy:' + t, dict(kept=df, all=dist, round=k), info=inf)
    # the iteration stops because of the limit or the tolerance
    tol = o['cond_vreq_iter_tol']
    for q, v in enumerate(dist):
        if v < tol - eps and lim > 1:
            ctx.violation('not_stopped:' + t, dict(round=q, distance=v, tol=tol), info=inf)
    if len(rounds) == lim:
        ctx.count('stop_limit')
    else:
        ctx.count('stop_tol')
        last = df if k == len(rounds) - 1 else None
        if last is None:        # the last round is never worse than the others when it stopped on the tolerance
            c = rounds[-1][0]
            if len(rounds[-1]) == 1 and min(aniso(logth(c['x'])), aniso(logth(c['x0']))) > tol + eps:
                ctx.violation('stopped_early:' + t, dict(rounds=len(rounds), limit=lim, tol=tol), info=inf)
        elif last > tol + eps:
            ctx.violation('stopped_early:' + t, dict(rounds=len(rounds), limit=lim, distance=last, tol=tol), info=inf)
    ctx.nontrivial(sc.cls() + (len(rounds), lim, k))
    ctx.sample(dict(scenario=inf, rounds=len(rounds), limit=lim, distances=dist + [df], kept=k, scale=fs))

"""C26: a run that is stopped, resumed or retried takes the same course as one that is not."""
import copy
import os

import sys
import numpy as np
from .. import gen
from . import c10, c14
from .c13 import NAMES

RULE = ('case = one run of 2-6 iterations in which points are added, the hyperparameters are optimized and the model is evaluated; the same run is made again (a) stopped after a random iteration and resumed by a new '
        'object from the exported dictionary or the saved file, once or several times, (b) with an exception at a random executed line of a step and the step repeated by the same object, (c) with other uses of '
        'the object between the steps, (d) in an object that made another run before; every row of the history, the hyperparameters and the predictions are compared with the plain run; '
        'class = (kernel, method, noise, disturbance, iterations)')
ASSUMPTIONS = ['a step is set_data() followed by set_hpara("optz", i); a step that was interrupted is repeated from set_data() on',
               'a difference is reported only if the plain run repeats itself']
KINDS = ['resume', 'resume', 'interrupt', 'interrupt', 'between', 'reuse']


def shards(tier):
    k, n = (8, 90) if tier == 'quick' else (24, 500)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'plain_runs': 500, 'steps': 1500, 'resumed': 200, 'resumed_file': 60, 'resumed_dict': 60, 'interrupted': 150, 'rows_before': 150, 'between': 200, 'reused': 60, 'rows': 1500, 'predictions': 1200,
            'scaled': 100}


def run(ctx):
    for i, rng in ctx.cases(ctx.shard['n']):
        case(ctx, rng, KINDS[i % len(KINDS)])


def upto(sc, m):
    """the scenario with the first m points only"""
    o = copy.copy(sc)
    o.n = m
    o.X, o.f = sc.X[:m], sc.f[:m]
    o.sf = None if sc.sf is None else sc.sf[:m]
    k = m
    if sc.bvec is not None:
        o.bvec = sc.bvec[:m]
        k = int(o.bvec.sum())
    if sc.use_grad:
        o.g = sc.g[:k]
        o.sg = None if sc.sg is None else sc.sg[:k]
        o.ng = k
    return o


class Plan:
    def __init__(self, rng):
        while True:
            self.sc = sc = gen.gen(rng, nmax=7, nmin=3, dmax=3, ndata_max=20, moderate=True, allow_dup=False, eta_const=0.9, cond_targets=[1e10, 1e6, 1e4], alpha_types=('float',),
                                   noises=['zero', 'zero', 'known', 'hetero', 'unk_f', 'unk_g', 'unk', 'f_only'], wcs=gen.WC_GRAD + ['rescale_origin'])
            n0 = int(rng.integers(1, sc.n))
            sizes = [n0]
            while sizes[-1] < sc.n:
                sizes.append(min(sc.n, sizes[-1] + int(rng.integers(1, 3))))
            while rng.random() < 0.3 and len(sizes) < 6:     # an iteration that adds nothing, or that removes points
                sizes.append(int(rng.integers(max(2, n0), sc.n + 1)))
            if len(sizes) >= 2:
                break
        self.sizes = sizes
        self.N = len(sizes)
        o = c10.options(rng, sc)
        o['optz_iter_max'] = min(o['optz_iter_max'], 5)
        o['lkd_hp_best_n_eval'] = min(o['lkd_hp_best_n_eval'], 4)
        o['optz_n_x0'] = min(o['optz_n_x0'], 2)
        o['optz_mtd'] = 'SLSQP'
        o.pop('hp_theta_range', None)
        o['hp_const_n_eval'] = n0 if rng.random() < 0.8 else sizes[min(1, len(sizes) - 1)]
        o['hp_theta_init'] = float(np.exp(np.mean(np.log(sc.hp['theta']))))
        o['hp_varK_init'] = float(sc.hp['varK'])
        if sc.unk_f:
            o['hp_var_fval_init'] = float(sc.hp['var_fval'])
        if sc.unk_g:
            o['hp_var_fgrad_init'] = float(sc.hp['var_fgrad'])
        self.o = o
        self.P = gen.eval_points(rng, sc, 2)
        self.extra = int(rng.integers(0, 3))

    def new(self, path=None, rows=None):
        from gpgradpy.src.GaussianProcess import GaussianProcess as GP
        sc = self.sc
        kw = {} if path is None else dict(path_data_surr=path)
        gp = GP(sc.dim, sc.use_grad, sc.kernel, sc.wc, **kw)
        for k, v in {**sc.opts, **self.o}.items():
            setattr(gp, k, copy.deepcopy(v))
        gp.init_optz_surr(self.N + self.extra if rows is None else rows)
        return gp

    def step(self, gp, i):
        gen.put_data(gp, upto(self.sc, self.sizes[i]))
        gp.set_hpara('optz', i)

    def look(self, gp, i):
        """what the step gave"""
        hp = {k: None if v is None else np.array(v, float) for k, v in vars(gp.hp_vals).items()}
        row = {k: np.array(getattr(gp, k)[i]) for k in NAMES if 'time' not in k}
        try:
            p = gp.eval_model(self.P, calc_grad=True)[:4]
        except AssertionError:
            p = 'refused'
        return dict(hp=hp, row=row, pred=p)

    def one(self, gp, i):
        try:
            self.step(gp, i)
            return self.look(gp, i)
        except Exception as e:      # noqa
            return dict(raised=type(e).__name__)

    def plain(self, gp=None):
        gp = self.new() if gp is None else gp
        return [self.one(gp, i) for i in range(self.N)], gp


def diff(a, b):
    if a.keys() != b.keys():
        return ['outcome']
    out = []
    for k in a:
        if isinstance(a[k], dict):
            out += ['%s:%s' % (k, j) for j in a[k] if not c14.same(a[k][j], b[k].get(j, 'missing'))]
        elif not c14.same(a[k], b[k]):
            out.append(k)
    return out


def case(ctx, rng, kind):
    pl = Plan(rng)
    inf = dict(sc=pl.sc.short(), sizes=pl.sizes, opts={**pl.sc.opts, **pl.o}, kind=kind)
    A, _ = pl.plain()
    ctx.count('plain_runs')
    if any('raised' in a for a in A):
        bad = [a['raised'] for a in A if 'raised' in a]
        # every plain run has to get through
        ok, _ = ctx.guard('plain', lambda: raise_run(pl), info=inf)
        if ok:
            ctx.count('raised_once')
        return
    if pl.sc.weff in gen.SCALED:
        ctx.count('scaled')
    how = []

    def compare(i, b, sig):
        ctx.count('steps')
        ctx.count('rows')
        ctx.count('predictions', isinstance(A[i].get('pred'), tuple))
        d = diff(A[i], b)
        if d:
            again, _ = pl.plain()
            if any(diff(x, y) for x, y in zip(A, again)):
                ctx.count('not_repeatable')
                return False
            g = d[0].split(':')
            one = A[i].get(g[0]) if len(g) == 1 else A[i][g[0]][g[1]]
            two = b.get(g[0]) if len(g) == 1 or not isinstance(b.get(g[0]), dict) else b[g[0]].get(g[1])
            ctx.violation('%s:%s' % (sig, d[0]), dict(iteration=i, names=d[:8], plain=c14.short(one), other=c14.short(two), how=how), info=inf)
            return False
        return True
    if kind == 'resume':
        path = os.path.abspath('run')
        gp = pl.new(path)
        for i in range(pl.N):
            if not compare(i, pl.one(gp, i), 'resumed'):
                break
            if i < pl.N - 1 and rng.random() < 0.6:
                via = str(rng.choice(['file', 'dict']))
                cut = bool(rng.random() < 0.3)
                how.append((i, via, cut))
                if cut:
                    gp.finish_optz_surr(i + 1)
                d = gp.export_data_surr(save2file=via == 'file')
                old, gp = gp, pl.new(path, rows=max(pl.N, d[gp.surr_name + 'hp_varK_all'].size) + int(rng.integers(0, 3)))
                gp.load_data_surr(None if via == 'file' else {k: np.array(v) for k, v in d.items()})
                ctx.count('resumed')
                ctx.count('resumed_' + via)
                for r in range(i + 1):
                    for nm in NAMES:
                        if not np.array_equal(np.asarray(getattr(gp, nm)[r], float), np.asarray(getattr(old, nm)[r], float), equal_nan=True):
                            ctx.violation('resumed:row:%s' % nm, dict(row=r), info=inf)
        for p in (path + '.npz', path + '_old.npz'):
            if os.path.exists(p):
                os.remove(p)
    elif kind == 'interrupt':
        gp = pl.new()
        for i in range(pl.N):
            if rng.random() < 0.6:
                rows = {nm: np.array(getattr(gp, nm)[:i], float) for nm in NAMES}
                n = count(lambda: pl.step(copy.deepcopy(gp), i))
                k = max(n, 2)
                at = int(rng.integers(1, k)) if rng.random() < 0.6 else int(k - 1 - rng.integers(0, min(k - 1, 150)))
                hit = interrupt(lambda: pl.step(gp, i), at)
                how.append((i, at, n))
                if hit:
                    ctx.count('interrupted')
                ctx.count('rows_before')
                for nm in NAMES:
                    if not np.array_equal(rows[nm], np.asarray(getattr(gp, nm)[:i], float), equal_nan=True):
                        ctx.violation('interrupt:rows_before:%s' % nm, dict(how=how), info=inf)
            if not compare(i, pl.one(gp, i), 'interrupted'):
                break
    elif kind == 'between':
        gp = pl.new()
        for i in range(pl.N):
            if not compare(i, pl.one(gp, i), 'between'):
                break
            for _ in range(int(rng.integers(1, 4))):
                op = between(ctx, rng, pl, gp, i)
                how.append((i, op))
                ctx.count('between')
    else:
        gp = pl.new()
        other = Plan(rng)
        # another run of the same kind of model before
        other.sc = gen.gen(rng, kernels=[pl.sc.kernel], use_grad=pl.sc.use_grad, wcs=[pl.sc.wc], dmin=pl.sc.dim, dmax=pl.sc.dim, nmin=4, nmax=4, ndata_max=99, moderate=True, allow_dup=False,
                           noises=['zero', 'known', 'unk_f', 'unk'], opts=dict(pl.sc.opts), eta_const=2.0)
        other.sizes, other.N = [1, 3, 4][:max(2, min(3, pl.N + pl.extra))], 2
        for i in range(2):
            o = other.sc
            try:
                gen.put_data(gp, upto(o, [1, 3][i] if pl.o['hp_const_n_eval'] >= 1 else 3))
                gp.set_hpara('optz', i)
            except Exception:       # noqa
                ctx.count('other_raised')
        gp.init_optz_surr(pl.N + pl.extra)
        ctx.count('reused')
        for i in range(pl.N):
            if not compare(i, pl.one(gp, i), 'reused'):
                break
    ctx.nontrivial((pl.sc.kernel, pl.sc.weff, pl.sc.noise, pl.sc.use_grad, kind, pl.N))
    ctx.sample(dict(inf, how=how))


def raise_run(pl):
    gp = pl.new()
    for i in range(pl.N):
        pl.step(gp, i)
        pl.look(gp, i)


def between(ctx, rng, pl, gp, i):
    op = str(rng.choice(['stored', 'eval', 'lkd', 'info', 'export', 'set', 'bounds', 'data', 'current', 'clear']))
    try:
        if op == 'stored':
            gp.set_hpara('stored', int(rng.integers(i + 1)))
            gp.eval_model(pl.P)
        elif op == 'eval':
            gp.eval_model(pl.P[:1], calc_grad=True, calc_hess=True)
        elif op == 'lkd':
            from ..lk import to_vec, flags
            v = rng.normal(0, 1, gp.hp_info_optz_lkd.n_hp)
            gp.calc_store_likelihood(v if rng.random() < 0.8 else np.zeros(v.size))
        elif op == 'info':
            gp.get_txt_info_surr(False, False)
        elif op == 'export':
            gp.export_data_surr(save2file=False)
        elif op == 'set':
            hp = copy.deepcopy(gp.hp_vals)
            hp.theta = np.array(hp.theta) * 1.7
            gp.set_hpara('set', 0, hp)
        elif op == 'bounds':
            gp.get_hp_bounds(gp.hp_info_optz_lkd, True, i + 1)
        elif op == 'data':
            gen.put_data(gp, upto(pl.sc, int(rng.integers(1, pl.sc.n + 1))))
        elif op == 'current':
            gp.set_hpara('current', i + 1, calc_cond=True)
        else:
            copy.deepcopy(gp)
    except Exception as e:      # noqa
        op += ':' + type(e).__name__
    return op


def lines(fn, hook):
    def trace(frame, event, arg):
        if '/gpgradpy/' not in frame.f_code.co_filename:
            return None
        if event == 'line':
            hook()
        return trace
    keep = sys.gettrace()
    sys.settrace(trace)
    try:
        fn()
    finally:
        sys.settrace(keep)


def count(fn):
    c = [0]

    def hook():
        c[0] += 1
    try:
        lines(fn, hook)
    except Exception:       # noqa
        pass
    return c[0]


class Stop(BaseException):
    pass


def interrupt(fn, at):
    left = [at]

    def hook():
        left[0] -= 1
        if left[0] == 0:
            raise Stop()
    try:
        lines(fn, hook)
    except Stop:
        return True
    except Exception:       # noqa
        return left[0] <= 0
    return False

"""C28: repeated use accumulates nothing: memory, object state, live objects, files, threads."""
import copy
import gc
import os
import pickle
import sys
import threading
import tracemalloc
import weakref
import contextlib
import numpy as np
from .. import gen
from . import c14, c25

RULE = ('case = a cycle of operations (new data, hyperparameters set / optimized / stored, model evaluated, likelihood, condition number, gradient checks, export, save, load, report, copies, objects created and dropped, '
        'calls that are refused) that is repeated with slightly different data on one object; after the first repetitions the memory allocated at lines of the package (tracemalloc), the pickled size of the object, the number of '
        'live objects, open files, threads and files on disk are measured three times; weak references tell whether data that were replaced and objects that were dropped are released; '
        'class = (kernel, method, noise, operations of the cycle)')
ASSUMPTIONS = ['only growth in every interval of repetitions that goes on after 150 repetitions counts, so a cache of limited size is allowed', 'figures that the debug option opens are not part of the cycles']
OPS = ['set', 'optz', 'optz', 'stored', 'eval', 'hess', 'var', 'lkd', 'vec', 'cond', 'export', 'save', 'load', 'report', 'copy', 'drop', 'refused', 'fd', 'init', 'rescaling', 'matrices', 'finish']
W, R = 4, 3


def shards(tier):
    k, n = (8, 14) if tier == 'quick' else (24, 110)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    r = {'cases': 90, 'cycles': 1100, 'measurements': 350, 'data_released': 2000, 'part:data': 30, 'part:setup': 10, 'part:use': 10, 'objects_released': 100, 'operations': 5000, 'lines_with_memory': 2000}
    r.update({'op:' + o: 100 for o in set(OPS)})
    return r


def run(ctx):
    import gpgradpy.src.base.Rescaling      # noqa
    import scipy.optimize   # noqa
    tracemalloc.start(1)
    try:
        for i, rng in ctx.cases(ctx.shard['n']):
            case(ctx, rng, i)
    finally:
        tracemalloc.stop()


FILT = [tracemalloc.Filter(True, '*/gpgradpy/*')]


def package_bytes():
    s = tracemalloc.take_snapshot().filter_traces(FILT)
    by = {}
    for t in s.traces:
        if t.size < 100:        # printing and opening files leave short strings behind in the interpreter
            continue
        f = t.traceback[-1]
        k = '%s:%d' % (os.path.basename(f.filename), f.lineno)
        by[k] = by.get(k, 0) + t.size
    return sum(by.values()), by     # bytes, per line


def measure(gp):
    gc.collect()
    b, snap = package_bytes()
    return dict(bytes=b, pickled=len(pickle.dumps(vars(gp))), objects=len(gc.get_objects()), fds=len(os.listdir('/proc/self/fd')), threads=threading.active_count(),
                files=sum(len(f) for _, _, f in os.walk('.'))), snap


SLACK = dict(bytes=100, pickled=0, objects=2, fds=0, threads=0, files=0)


class Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def case(ctx, rng, i):
    sc = gen.gen(rng, nmax=6, nmin=2, dmax=3, ndata_max=20, moderate=True, allow_dup=False, eta_const=0.9, cond_targets=[1e10, 1e6, 1e4], alpha_types=('float', 'array'))
    if not sc.use_grad:
        sc.wc = 'base' if sc.wc in gen.SCALED else sc.wc
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP

    def new():
        gp = GP(sc.dim, sc.use_grad, sc.kernel, sc.wc, path_data_surr='acc')
        for k, v in sc.opts.items():
            setattr(gp, k, v)
        c25.options(gp, sc)
        gp.hp_const_n_eval = 1
        gp.init_optz_surr(4)
        return gp
    gp = new()
    P = gen.eval_points(rng, sc, 3)
    ops = [str(o) for o in rng.choice(OPS, size=int(rng.integers(3, 7)), replace=False)] + [OPS[i % len(OPS)]]
    part = str(rng.choice(['data', 'data', 'setup', 'use']))     # what the cycle starts with
    st = dict(seen=[], dropped=[], kept=False, k=0)
    inf = dict(sc=sc.short(), ops=ops, part=part)

    def cycle():
        refs = []
        st['k'] += 1
        s = copy.copy(sc)
        for k in ('X', 'f', 'sf', 'g', 'sg', 'bvec'):
            v = getattr(sc, k)
            if v is not None:
                setattr(s, k, np.array(v) if k == 'bvec' else v * (1 + 1e-9 * st['k']))     # never the same numbers twice
                refs.append((k, weakref.ref(getattr(s, k))))
        hp = gen.mk_hp(gp, sc.hp)
        if part == 'data' or st['k'] == 1:
            gp.set_data(s.X, s.f, s.sf, s.g, s.sg, s.bvec)
        if part != 'use' or st['k'] == 1:
            gp.set_hpara('set', 0, hp)
            gp.store_new_para_surr(0, hp)
        if part != 'data':
            refs = []
        Pc = P * (1 + 1e-9 * st['k'])
        refs.append(('P', weakref.ref(Pc)))
        for op in ops:
            one(op, gp, new, sc, s, hp, Pc, st)
        del s, Pc
        st['seen'] = st['seen'][-2:] + [refs]

    ms = []
    with contextlib.redirect_stdout(Null()):
        if not measured(ctx, cycle, ms, gp, st, ops, inf, W, R):
            return
        ctx.count('cases')
        ctx.count('lines_with_memory', len(ms[-1][1]))
        ctx.count('part:' + part)
        if any(growing(ms, k) for k in SLACK) and ctx.counts.get('long_runs', 0) < 4:
            ctx.count('long_runs')      # a cache of limited size stops growing
            long = []
            if not measured(ctx, cycle, long, gp, st, ops, inf, 150, 10):
                return
            for k in SLACK:
                if growing(ms, k) and growing(long, k):
                    det = dict(values=[m[0][k] for m in ms + long], repetitions=(R, 10))
                    if k == 'bytes':
                        more = {n: x - long[0][1].get(n, 0) for n, x in long[-1][1].items()}
                        det['where'] = {n: more[n] for n in sorted(more, key=more.get)[-3:]}
                    ctx.violation('grows:' + k, det, info=inf)
    gc.collect()
    for r in st['dropped']:
        ctx.count('objects_released')
        if r() is not None:
            ctx.violation('kept:object', dict(referrers=[type(x).__name__ for x in gc.get_referrers(r())][:4]), info=inf)
            break
    w = weakref.ref(gp)
    del gp, cycle
    gc.collect()
    ctx.count('objects_released')
    if w() is not None:
        ctx.violation('kept:object', dict(referrers=[type(x).__name__ for x in gc.get_referrers(w())][:4]), info=inf)
    for f in os.listdir('.'):
        if f.startswith('acc'):
            os.remove(f)
    ctx.nontrivial((sc.kernel, sc.weff, sc.noise, tuple(sorted(set(ops)))))
    ctx.sample(dict(inf, measured=[m[0] for m in ms]))


def measured(ctx, cycle, ms, gp, st, ops, inf, first, step):
    for k in range(first + 3 * step):
        # the random numbers of the optimizers are the same in every repetition
        np.random.seed(5)
        ok, _ = ctx.guard('cycle', cycle, info=inf)
        if not ok:
            return False
        gc.collect()
        if len(st['seen']) == 3 and not st['kept']:     # what was replaced two repetitions ago is released
            for nm, r in st['seen'][0]:
                ctx.count('data_released')
                if r() is not None:
                    st['kept'] = True
                    ctx.violation('kept:%s' % nm, dict(referrers=[type(x).__name__ for x in gc.get_referrers(r())][:4]), info=inf)
                    break
        ctx.count('cycles')
        ctx.count('operations', len(ops))
        for o in ops:
            ctx.count('op:' + o)
        if k + 1 >= first and (k + 1 - first) % step == 0:
            ms.append(measure(gp))
            ctx.count('measurements')
    return True


def growing(ms, k):
    return bool(np.all(np.diff([m[0][k] for m in ms]) > SLACK[k]))


def one(op, gp, new, sc, s, hp, P, st):
    try:
        if op == 'set':
            h = copy.deepcopy(hp)
            h.theta = np.array(h.theta) * 1.3
            gp.set_hpara('set', 1, h, calc_cond=True)
        elif op == 'optz':
            gp.set_hpara('optz', 1)
        elif op == 'stored':
            gp.set_hpara('stored', 0)
        elif op == 'eval':
            for _ in range(3):
                gp.eval_model(P, calc_grad=True)
        elif op == 'hess':
            gp.eval_model(P[:1], calc_grad=True, calc_hess=True, squeeze_nx=True)
        elif op == 'var':
            gp.eval_model_var(P, calc_grad=True)
        elif op == 'lkd':
            gp.calc_lkd_all(hp, calc_cond=True, calc_grad=True)
        elif op == 'vec':
            v = c14.mkvec(gp.hp_info_optz_lkd, sc.hp, None)
            for _ in range(4):
                v = v + 1e-3
                gp.return_optz_val(v)
                gp.return_optz_grad(v)
        elif op == 'cond':
            v = c14.mkvec(gp.hp_info_optz_lkd, sc.hp, None)
            gp.return_cond_val(v)
            gp.return_cond_grad(v)
        elif op == 'export':
            gp.export_data_surr(save2file=False)
        elif op == 'save':
            gp.export_data_surr()
        elif op == 'load':
            gp.export_data_surr()
            gp.load_data_surr()
        elif op == 'report':
            gp.get_txt_info_surr(True, True)
        elif op == 'copy':
            g = copy.deepcopy(gp)
            if len(st['dropped']) < 8:
                st['dropped'].append(weakref.ref(g))
        elif op == 'drop':
            for _ in range(2):
                g = new()
                gen.put_data(g, sc)
                g.set_hpara('set', 0, gen.mk_hp(g, sc.hp))
                g.eval_model(P)
                if len(st['dropped']) < 8:
                    st['dropped'].append(weakref.ref(g))
        elif op == 'refused':
            for fn in (lambda: gp.set_data(s.X[:, :0], s.f, s.sf, s.g, s.sg, s.bvec), lambda: gp.eval_model(np.zeros((2, sc.dim + 1))), lambda: gp.set_hpara('nothing', 0), lambda: gp.set_wellcond_mtd('nothing')):
                try:
                    fn()
                except Exception:       # noqa
                    pass
        elif op == 'fd':
            gp.test_grad_calc(P[0], lambda x: gp.eval_model(x[None, :])[0], lambda x: gp.eval_model(x[None, :], calc_grad=True)[2][0], eps=1e-6)
        elif op == 'init':
            gp.init_optz_surr(4)
            gp.store_new_para_surr(0, hp)
        elif op == 'rescaling':
            from gpgradpy.src.base.Rescaling import Rescaling
            S = Rescaling(np.array(sc.X), x_scl_method='set_vmin')
            S.set_obj_data(np.array(sc.f), None, None, None)
            S.set_xscale_data(xvec_scale_in=np.full(sc.dim, 2.0))
            if gp.b_use_data_scl:
                gp.DataScl.set_xscale_data(xvec_scale_in=np.full(sc.dim, 1.5))
                gp.set_hpara('set', 0, hp)
        elif op == 'matrices':
            x, T = gp.get_scl_x_w_dist()
            gp.calc_all_K_w_chofac(T, hp, calc_cond=True)
            gp.calc_KernGrad_hp(gp.hp_info_optz_lkd, hp, T)
        elif op == 'finish':
            gp.finish_optz_surr(2)
            gp.init_optz_surr(4)
            gp.store_new_para_surr(0, hp)
    except Exception as e:      # noqa  (refused, e.g. the variance is not positive at a data point)
        e.__traceback__ = None

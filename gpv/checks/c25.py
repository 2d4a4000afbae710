"""C25: separate models share nothing: copies, concurrent use, process-wide state."""
import copy
import hashlib
import io
import os
import pickle
import random
import sys
import threading
import warnings
import numpy as np
from .. import gen
from . import c14

RULE = ('case = (a) deep copies and pickle round trips of a model with a random past, compared bit for bit with the original before and after either is used further, (b) 2-4 models used in threads under a seeded '
        'scheduler that switches between threads at random executed lines of the package, compared with sequential use, (c) one model evaluated in several threads, (d) process-wide state (random generators, '
        'NumPy error and print settings, warnings, environment, directory, attributes of the classes and modules of the package) compared before and after every call, and results under different process-wide state; '
        'class = (kind, kernels, methods, threads / operation)')
ASSUMPTIONS = ['switches between threads happen at line boundaries of the package (finer switches inside NumPy calls are not explored)',
               'a difference is reported only if it repeats under the same schedule and sequential runs agree with each other']
KINDS = ['copy', 'threads', 'threads', 'shared', 'process']


def shards(tier):
    k, n = (8, 100) if tier == 'quick' else (24, 600)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'copies': 100, 'copy_outputs': 2500, 'copy_later': 100, 'original_later': 100, 'thread_runs': 150, 'switches': 20000, 'interleavings': 150, 'thread_outputs': 8000, 'thread_optz': 100,
            'shared_runs': 70, 'shared_outputs': 300, 'process_calls': 1000, 'package_attributes': 1000, 'process_results': 70, 'call:get_txt_info_surr': 100, 'call:load_data_surr': 60, 'call:test_grad_calc': 30}


def run(ctx):
    # all modules are imported before any thread starts
    import gpgradpy.src.optz.OptzLkd  # noqa
    import scipy.optimize  # noqa
    before = package()
    for i, rng in ctx.cases(ctx.shard['n']):
        kind = KINDS[i % len(KINDS)]
        dict(copy=copies, threads=threads, shared=shared, process=process)[kind](ctx, rng)
        after = package()
        for k in before:
            if before[k] != after.get(k):
                ctx.violation('package_state:%s' % k, dict(kind=kind, before=repr(before[k])[:150], after=repr(after.get(k))[:150]))
        before = after


def scen(rng, **kw):
    a = dict(nmax=4, dmax=2, ndata_max=12, moderate=True, allow_dup=False, cond_targets=[1e4, 1e6], noises=['zero', 'zero', 'known', 'hetero', 'unk_f', 'unk'], eta_const=1.0, nmin=2, alpha_types=('float', 'array'))
    a.update(kw)
    sc = gen.gen(rng, **a)
    if not sc.use_grad and sc.wc in gen.SCALED:
        sc.wc = 'base'
    return sc


class Quiet(c14.Watch):
    def call(self, name, fn, *a, **kw):
        return fn(*a, **kw)


def options(gp, sc=None):
    gp.optz_iter_max, gp.lkd_hp_best_n_eval, gp.optz_n_x0, gp.hp_const_n_eval = 3, 4, 1, 1
    gp.cond_vreq_max_iter = 2
    if sc is not None:      # decided by the scenario, the same in every run of it
        r = np.random.default_rng([sc.n, sc.dim, int(abs(float(sc.hp['theta'][0])) * 1e6) % 2 ** 31])
        gp.lkd_optz_start_mtd = str(r.choice(['hp_best', 'lhs']))
        gp.optz_n_x0 = int(r.integers(1, 3))
        if r.random() < 0.5:
            gp.hp_lhs_bound_factor = float(r.choice([2., 30.]))
            gp.hp_box_bound_factor = gp.hp_lhs_bound_factor * float(r.choice([1., 5.]))
        gp.hp_median_n_idx = int(r.integers(1, 6))


def history(gp):
    return {k: np.array(v) for k, v in gp.export_data_surr(save2file=False).items() if 'time' not in k}


# ------------------------------------------------------------------ one program = everything done with one model
def program(sc, plan, w, mk=None):
    """generator-free sequence of calls; returns a dict of results"""
    out = {}
    gp = gen.mk_gp(sc) if mk is None else mk()
    options(gp, sc)

    def put(nm, fn, *a, **kw):
        try:
            out[nm] = copy.deepcopy(fn(*a, **kw))
        except Exception as e:      # noqa
            out[nm] = ('raised', type(e).__name__)
    gp.init_optz_surr(4)
    put('set_data', gen.put_data, gp, sc)
    hp = gen.mk_hp(gp, sc.hp)
    put('store', gp.store_new_para_surr, 0, hp)
    put('set', gp.set_hpara, 'set', 0, hp, True)
    P = plan['P']
    for j, op in enumerate(plan['ops']):
        t = '%d:%s' % (j, op)
        if op == 'optz':
            put(t, gp.set_hpara, 'optz', 1 + j % 3)
            put(t + ':hp', lambda: vars(gp.hp_vals))
            put(t + ':hist', history, gp)
        elif op == 'results':
            hpv = sc.hp
            vec = c14.mkvec(gp.hp_info_optz_lkd, hpv, None)
            put(t + ':set', gp.set_hpara, 'set', 0, gen.mk_hp(gp, hpv))
            r = c14.results(w, gp, sc, P, vec, hpv)
            out.update({t + ':' + k: v for k, v in r.items()})
        elif op == 'data':
            put(t, gen.put_data, gp, sc)
            put(t + ':set', gp.set_hpara, 'set', 0, hp)
        elif op == 'eval':
            put(t + ':set', gp.set_hpara, 'set', 0, hp)
            put(t + ':h', gp.eval_model, P[:1], calc_grad=True, calc_hess=True)
            put(t + ':g', gp.eval_model, P, calc_grad=True)
        elif op == 'stored':
            put(t, gp.set_hpara, 'stored', 0)
            put(t + ':g', gp.eval_model, P, calc_grad=True)
        elif op == 'info':
            put(t, gp.info_surr_theta, False)
        elif op == 'report':        # times differ between runs
            put(t, gp.info_surr_options, False)
            put(t + ':all', lambda: len(gp.get_txt_info_surr(False, False)) > 0)
        elif op == 'file':          # only one program at a time uses the file
            put(t + ':save', lambda: len(gp.export_data_surr()))
            put(t + ':report', lambda: len(gp.get_txt_info_surr(False, True)) > 0)
            put(t + ':load', gp.load_data_surr)
        elif op == 'fd':
            put(t + ':set', gp.set_hpara, 'set', 0, hp)
            put(t, lambda: gp.test_grad_calc(P[0], lambda x: gp.eval_model(x[None, :])[0], lambda x: gp.eval_model(x[None, :], calc_grad=True)[2][0], 1e-6, False))
    return out


def plan(rng, sc):
    ops = list(rng.choice(['optz', 'results', 'eval', 'stored', 'data', 'info'], int(rng.integers(2, 5)), p=[.25, .25, .2, .1, .1, .1]))
    return dict(ops=[str(o) for o in ops], P=gen.eval_points(rng, sc, 3))


# ------------------------------------------------------------------ scheduler
class Baton:
    """one thread runs at a time; at executed lines of the package the running thread may hand over"""

    def __init__(self, n, seed, p):
        self.r = random.Random(seed)
        self.p = p
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.log = []
        self.broken = False

    def line(self, t):
        if self.r.random() < self.p and not self.broken:
            u = self.r.choice(sorted(self.alive))
            if u != t:
                self.log.append((t, u))
                self.sem[u].release()
                self.wait(t)

    def wait(self, t):
        if not self.broken and not self.sem[t].acquire(timeout=120):
            self.broken = True

    def done(self, t):
        self.alive.discard(t)
        if self.alive:
            u = self.r.choice(sorted(self.alive))
            self.log.append((t, u))
            self.sem[u].release()


def interleave(fns, seed, p):
    """run the functions in threads under the scheduler; returns their results and the schedule"""
    b = Baton(len(fns), seed, p)
    res = [None] * len(fns)

    def body(t):
        b.wait(t)

        def trace(frame, event, arg):
            if '/gpgradpy/' not in frame.f_code.co_filename:
                return None
            if event == 'line':
                b.line(t)
            return trace
        sys.settrace(trace)
        try:
            res[t] = fns[t]()
        except Exception as e:      # noqa
            res[t] = ('raised', type(e).__name__, str(e)[:200])
        finally:
            sys.settrace(None)
            b.done(t)
    th = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(len(fns))]
    for t in th:
        t.start()
    b.sem[b.r.choice(sorted(b.alive))].release()
    for t in th:
        t.join(timeout=300)
    return res, b


def near(a, b, tol=1e-6):
    """equal up to rounding differences"""
    if c14.same(a, b):
        return True
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(near(a[k], b[k], tol) for k in a)
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if hasattr(a, '__dataclass_fields__'):
        return type(a).__name__ == type(b).__name__ and all(near(x, getattr(b, k), tol) for k, x in vars(a).items())
    try:
        x, y = np.asarray(a, float), np.asarray(b, float)
    except (TypeError, ValueError):
        return a == b
    if x.shape != y.shape or not np.array_equal(np.isnan(x), np.isnan(y)):
        return False
    s = np.max(np.abs(x[np.isfinite(x)]), initial=0)
    with np.errstate(all='ignore'):
        return bool(np.all((x == y) | np.isnan(x) | (np.abs(x - y) <= tol * (s + 1e-300))))


def differing(a, b, tol):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return [] if c14.same(a, b) else ['outcome']
    return [k for k in a if not near(a[k], b.get(k, 'missing'), 1e-2 if ':optz' in k else tol)]


def threads(ctx, rng):
    n = int(rng.integers(2, 5)) if rng.random() < 0.4 else 2
    first = scen(rng)
    scs = [first]
    same_kind = rng.random() < 0.6       # objects alike in everything but the data are the most likely to be confused
    for _ in range(n - 1):
        if same_kind:
            o = scen(rng, kernels=[first.kernel], use_grad=first.use_grad, wcs=[first.wc], dmin=first.dim, dmax=first.dim, nmin=first.n, nmax=first.n, opts=dict(first.opts), ndata_max=99,
                     noises=[first.noise], masks=['none'] if first.bvec is None else ['some'])
        else:
            o = scen(rng)
        scs.append(o)
    plans = [plan(rng, s) for s in scs]
    if same_kind and rng.random() < 0.5:
        plans = [dict(ops=plans[0]['ops'], P=q['P']) for q in plans]
    p = float(10 ** rng.uniform(-2.5, -0.5))
    seed = int(rng.integers(2 ** 31))
    inf = dict(models=[s.short() for s in scs], ops=[q['ops'] for q in plans], p=p)
    w = Quiet(ctx, inf)
    fns = [lambda s=s, q=q: program(s, q, w) for s, q in zip(scs, plans)]
    seq = [f() for f in fns]
    par, b = interleave(fns, seed, p)
    if b.broken or any(r is None for r in par):
        ctx.inconclusive('threads did not finish')
        return
    ctx.count('thread_runs')
    ctx.count('switches', len(b.log))
    ctx.count('thread_optz', sum(q['ops'].count('optz') for q in plans))
    h = hashlib.sha256(repr(b.log).encode()).hexdigest()[:12]
    ctx.count('interleavings')
    for t in range(n):
        ctx.count('thread_outputs', len(seq[t]))
        bad = differing(seq[t], par[t], 1e-6)
        if bad:
            again, b2 = interleave(fns, seed, p)
            reps = [fns[t]() for _ in range(4)]
            und = {k for r in reps for k in differing(seq[t], r, 1e-6)}
            rep = set(differing(seq[t], again[t], 1e-6))
            bad = [k for k in bad if k not in und and k in rep]
        if bad:
            k = bad[0]
            ctx.violation('threads:%s' % k.split(':', 1)[1], dict(thread=t, names=bad[:6], sequential=c14.short(seq[t].get(k)), concurrent=c14.short(par[t].get(k) if isinstance(par[t], dict) else par[t])), info=inf)
    ctx.nontrivial(('threads', n, same_kind, h))
    ctx.sample(dict(inf, switches=len(b.log), schedule=h))


def shared(ctx, rng):
    sc = scen(rng, nmax=6, ndata_max=20)
    gp = gen.mk_gp(sc)
    inf = sc.short()
    ok, _ = ctx.guard('set_data', gen.put_data, gp, sc, info=inf)
    if not ok:
        return
    ok, _ = ctx.guard('set_hpara', gp.set_hpara, 'set', 0, gen.mk_hp(gp, sc.hp), info=inf)
    if not ok or gp.KernEta_chofac is None:
        return
    n = int(rng.integers(2, 5))
    jobs = []
    for _ in range(n):
        jobs.append([(gen.eval_points(rng, sc, int(rng.integers(1, 5))), int(rng.integers(4))) for _ in range(3)])

    def work(js):
        out = {}
        for j, (P, m) in enumerate(js):
            try:
                if m == 0:
                    r = gp.eval_model(P)
                elif m == 1:
                    r = gp.eval_model(P, calc_grad=True)
                elif m == 2:
                    r = gp.eval_model(P[:1], calc_grad=True, calc_hess=True)
                else:
                    r = gp.eval_model_var(P, calc_grad=True) if not gp.b_use_data_scl else gp.eval_model(P[0], squeeze_nx=True)
                out[j] = copy.deepcopy(r)
            except Exception as e:      # noqa
                out[j] = ('raised', type(e).__name__, str(e)[:100])
        return out
    fns = [lambda js=js: work(js) for js in jobs]
    seq = [f() for f in fns]
    seed, p = int(rng.integers(2 ** 31)), float(10 ** rng.uniform(-1.5, -0.3))
    par, b = interleave(fns, seed, p)
    if b.broken or any(r is None for r in par):
        ctx.inconclusive('threads did not finish')
        return
    ctx.count('shared_runs')
    ctx.count('switches', len(b.log))
    for t in range(n):
        for j in seq[t]:
            ctx.count('shared_outputs')
            if not near(seq[t][j], par[t].get(j), 1e-6) and all(near(seq[t][j], fns[t]()[j], 1e-6) for _ in range(3)):
                ctx.violation('shared:eval%d' % jobs[t][j][1], dict(sequential=c14.short(seq[t][j]), concurrent=c14.short(par[t].get(j))), info=inf)
                return
    ctx.nontrivial(('shared', n, sc.kernel, sc.weff, hashlib.sha256(repr(b.log).encode()).hexdigest()[:12]))


# ------------------------------------------------------------------ copies
def copies(ctx, rng):
    sc = scen(rng, nmax=5, ndata_max=16)
    gp = gen.mk_gp(sc)
    options(gp, sc)
    gp.init_optz_surr(4)
    inf = sc.short()
    w = Quiet(ctx, inf)

    def quiet(fn, *a, **kw):
        try:
            return fn(*a, **kw)
        except Exception as e:      # noqa
            return ('raised', type(e).__name__)
    gen.put_data(gp, sc)
    hp = gen.mk_hp(gp, sc.hp)
    quiet(gp.store_new_para_surr, 0, hp)
    if rng.random() < 0.4:
        quiet(gp.set_hpara, 'optz', 1)
    cal = bool(rng.random() < 0.5)
    quiet(gp.set_hpara, 'set', 0, hp, cal)
    P = gen.eval_points(rng, sc, 3)
    vec = c14.mkvec(gp.hp_info_optz_lkd, sc.hp, None)
    if rng.random() < 0.5:
        quiet(gp.return_optz_val, vec)
    how = str(rng.choice(['deepcopy', 'pickle']))
    if how == 'pickle':
        try:
            pickle.dumps(gp)
        except Exception:       # noqa  (nothing promises that a model can be pickled, only what comes back)
            ctx.count('pickle_refused')
            how = 'deepcopy'
    mk = (lambda: copy.deepcopy(gp)) if how == 'deepcopy' else (lambda: pickle.loads(pickle.dumps(gp)))
    ok, q = ctx.guard('copy:' + how, mk, info=inf)
    if not ok:
        return
    ctx.count('copies')

    def res(g):
        r = {'eval0': quiet(g.eval_model, P, calc_grad=True), 'hist0': quiet(history, g), 'hp0': dict(vars(g.hp_vals))}
        r.update(c14.results(w, g, sc, P, vec, sc.hp))
        return r

    def further(g, seed):
        """the object is used for something else"""
        r2 = np.random.default_rng(seed)
        o = scen(r2, kernels=[sc.kernel], use_grad=sc.use_grad, wcs=[sc.wc], dmin=sc.dim, dmax=sc.dim, opts=dict(sc.opts), ndata_max=99, nmax=5)
        o.wc = sc.wc
        out = {}
        if r2.random() < 0.5:
            out['optz_same'] = quiet(g.set_hpara, 'optz', 2), dict(vars(g.hp_vals))
        out['data'] = quiet(gen.put_data, g, o)
        out['store'] = quiet(g.store_new_para_surr, 3, gen.mk_hp(g, o.hp))
        out['set'] = quiet(g.set_hpara, 'set', 0, gen.mk_hp(g, o.hp))
        out['eval'] = quiet(g.eval_model, gen.eval_points(r2, o, 2), calc_grad=True)
        if r2.random() < 0.5:
            out['optz'] = quiet(g.set_hpara, 'optz', 2), dict(vars(g.hp_vals))
        # in-place changes of what the object holds
        g.hp_theta_all[0] = 7.0
        g.hp_varK_all[:] = 3.0
        g.optz_log_hp_theta = not g.optz_log_hp_theta
        g.cond_max_target = 123.0
        return out
    keep = mk()
    spare = [mk() for _ in range(3)]
    # the copy is used, then the original must give what another untouched copy gives
    seed = int(rng.integers(2 ** 31))
    fq = further(q, seed)
    a = res(gp)
    ctx.count('copy_outputs', len(a))
    k2 = copy.deepcopy(keep)
    b = res(keep)

    def judge(x, y, sig, again):
        bad = [k for k in x if not near(x[k], y.get(k, 'missing'), 1e-9)]
        if bad:
            und = {k for s in again() for k in x if not near(s.get(k), y.get(k, 'missing'), 1e-9)}
            bad = [k for k in bad if k not in und]
        if bad:
            ctx.violation('%s:%s:%s' % (sig, how, bad[0]), dict(names=bad[:6], one=c14.short(x[bad[0]]), other=c14.short(y.get(bad[0]))), info=inf)
    judge(a, b, 'original_changed', lambda: [res(s) for s in spare[:2]])
    ctx.count('copy_later')
    # the original is used in the same way as the copy was, and a second untouched copy is as before
    fg = further(gp, seed)
    bad = [k for k in fq if not near(fq[k], fg.get(k, 'missing'), 1e-3 if 'optz' in k else 1e-9)]
    if bad:
        f3 = further(spare[2], seed)
        bad = [k for k in bad if near(fg[k], f3[k], 1e-3 if 'optz' in k else 1e-9)]
    if bad:
        ctx.violation('copy_behaves_differently:%s:%s' % (how, bad[0]), dict(names=bad, copy=c14.short(fq[bad[0]]), original=c14.short(fg[bad[0]])), info=inf)
    c = res(k2)
    judge(c, b, 'copy_changed', lambda: [b])
    ctx.count('original_later')
    ctx.nontrivial(('copy', how, sc.kernel, sc.weff, sc.use_grad, sc.noise))


# ------------------------------------------------------------------ process-wide state
def freeze(v, depth=0):
    if isinstance(v, np.ndarray):
        return ('a', v.shape, v.tobytes() if v.dtype != object else repr(v))
    if isinstance(v, dict) and depth < 4:
        return ('m', tuple(sorted((repr(k), freeze(x, depth + 1)) for k, x in v.items())))
    if isinstance(v, (list, tuple)) and depth < 4:
        return ('t', tuple(freeze(x, depth + 1) for x in v))
    if isinstance(v, (set, frozenset)):
        return ('s', tuple(sorted(map(repr, v))))
    if isinstance(v, (int, float, str, bool, bytes, type(None), np.generic)):
        return repr(v)
    return ('id', id(v))


def package():
    """public attributes of all modules and classes of the package (a private cache is judged by the results it gives)"""
    out = {}
    for nm, m in list(sys.modules.items()):
        if nm.startswith('gpgradpy') and m is not None:
            for k, v in vars(m).items():
                if k.startswith('_'):
                    continue
                out[nm + '.' + k] = freeze(v)
                if isinstance(v, type) and getattr(v, '__module__', '').startswith('gpgradpy'):
                    for a, x in vars(v).items():
                        if not a.startswith('_'):
                            out['%s.%s.%s' % (nm, k, a)] = freeze(x)
                            d = getattr(x, '__defaults__', None)
                            if d:
                                out['%s.%s.%s()' % (nm, k, a)] = freeze(d)
    return out


def state():
    st = np.random.get_state()
    return {'numpy.random': (st[0], st[1].tobytes(), st[2:]), 'random': random.getstate(), 'numpy.geterr': np.geterr(), 'numpy.printoptions': repr(sorted(np.get_printoptions().items(), key=str)), 'cwd': os.getcwd(),
            'environ': dict(os.environ), 'warnings': [repr(f) for f in warnings.filters], 'recursion': sys.getrecursionlimit(), 'switch': sys.getswitchinterval(), 'stdout': id(sys.stdout), 'stderr': id(sys.stderr),
            'threads': threading.active_count(), 'files': sorted(f for f in os.listdir('.') if not f.startswith('baye_data_surr')), 'path': list(sys.path)}


def process(ctx, rng):
    sc = scen(rng, nmax=5, ndata_max=16)
    inf = sc.short()
    pl = plan(rng, sc)
    pl['ops'] = list(rng.permutation(['optz', 'results', 'eval', 'stored', 'info', 'data', 'report', 'report', 'file', 'file', 'fd']))[:6]
    out = io.StringIO()

    class Mon(Quiet):
        pass
    w = Mon(ctx, inf)
    # every public call is bracketed by the monitor
    real = gen.mk_gp

    def bracket(gp):
        names = [k for k in dir(type(gp)) if not k.startswith('_') and callable(getattr(gp, k)) and not isinstance(getattr(type(gp), k), type)]
        busy = [False]

        def wrap(nm, fn):
            def call(*a, **kw):
                if busy[0]:
                    return fn(*a, **kw)
                busy[0] = True
                # values nothing would set, so that setting any constant shows
                k = int(rng.integers(2 ** 31))
                np.random.seed(k)
                random.seed(k)
                np.set_printoptions(precision=9 + k % 7, threshold=700 + k % 100, linewidth=60 + k % 50)
                np.seterr(under=['ignore', 'warn'][k % 2], divide=['ignore', 'warn'][k // 2 % 2])
                s0, p0 = state(), package()
                try:
                    return fn(*a, **kw)
                finally:
                    busy[0] = False
                    s1, p1 = state(), package()
                    ctx.count('process_calls')
                    ctx.count('call:' + nm)
                    ctx.count('package_attributes', len(p1))
                    for k in s0:
                        if s0[k] != s1[k]:
                            ctx.violation('process_state:%s:%s' % (nm, k), dict(before=repr(s0[k])[:150], after=repr(s1[k])[:150]), info=inf)
                    for k in set(p0) | set(p1):
                        if p0.get(k) != p1.get(k) and not (k not in p0 and k.count('.') >= 1 and nm and isinstance(p1.get(k), tuple) and p1[k][0] == 'id'):
                            ctx.violation('package_state:%s:%s' % (nm, k), dict(before=repr(p0.get(k))[:150], after=repr(p1.get(k))[:150]), info=inf)
            return call
        for nm in names:
            if hasattr(gp, nm):
                setattr(gp, nm, wrap(nm, getattr(gp, nm)))
        return gp
    st, rs, po, er, cw = np.random.get_state(), random.getstate(), np.get_printoptions(), np.geterr(), os.getcwd()
    r0 = program(sc, pl, w)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore', category=ImportWarning)
            program(sc, pl, w, mk=lambda: bracket(real(sc)))
        # the same under other process-wide settings
        np.random.seed(int(rng.integers(2 ** 31)))
        random.seed(int(rng.integers(2 ** 31)))
        np.set_printoptions(precision=2, threshold=5)
        np.seterr(all='ignore')
        r1 = program(sc, pl, w)
    finally:
        np.random.set_state(st)
        random.setstate(rs)
        np.set_printoptions(**{k: v for k, v in po.items() if k != 'override_repr'})
        np.seterr(**er)
        os.chdir(cw)
    ctx.count('process_results')
    bad = differing(r0, r1, 1e-6)
    if bad:
        und = {k for _ in range(4) for k in differing(r0, program(sc, pl, w), 1e-6)}
        bad = [k for k in bad if k not in und]
    if bad:
        k = bad[0]
        ctx.violation('depends_on_process_state:%s' % k.split(':', 1)[-1], dict(names=bad[:6], one=c14.short(r0[k]), other=c14.short(r1.get(k))), info=inf)
    ctx.nontrivial(('process', sc.kernel, sc.weff, sc.use_grad, sc.noise, tuple(pl['ops'])))

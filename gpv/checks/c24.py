"""C24: a save that fails or is interrupted loses no completed save."""
import os
import resource
import shutil
import signal
import sys
import tempfile
import numpy as np
from .. import gen

RULE = ('case = one model with a completed save (.npz history or .txt report) and a changed history that is saved again in a forked child with one fault: the process ends at a random line of the save (package, '
        'NumPy and zipfile code), an exception arrives at that line (as from the keyboard), the disk is full after a random number of bytes (as an error and as a signal), or the old file cannot be replaced; '
        'afterwards the files are read by the parent; class = (kind, names, fault, outcome)')
ASSUMPTIONS = ['one fault per completed save', 'a process that ends keeps the bytes it has handed to the operating system (no loss of power)']
FAULTS = ['kill', 'kill', 'exc', 'full', 'full', 'full_kill', 'blocked', 'none']


def shards(tier):
    k, n = (8, 60) if tier == 'quick' else (24, 400)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    d = {'fault:' + f: 250 for f in FAULTS}
    d.update({'kept': 2000, 'new_complete': 400, 'partial_file': 150, 'raised': 500, 'ended': 400, 'loaded': 300, 'load_refused': 80, 'memory_unchanged': 300, 'saved_again': 400, 'npz': 1000, 'txt': 1000})
    return d


def run(ctx):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    for i, rng in ctx.cases(ctx.shard['n']):
        d = tempfile.mkdtemp(dir='.')
        try:
            case(ctx, rng, d)
        finally:
            shutil.rmtree(os.path.join(os.getcwd(), d), ignore_errors=True)


class Count:
    """number of lines executed by the call"""

    def __init__(self):
        self.n = 0

    def __call__(self, frame, event, arg):
        if event == 'line':
            self.n += 1
        return self


def child(fn, fault, k):
    """run fn in a forked child; returns ('returned' | 'raised' | 'ended', text)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(r)
            sys.stdout = sys.stderr = open(os.devnull, 'w')
            left = [k]

            def trace(frame, event, arg):
                if event == 'line':
                    left[0] -= 1
                    if left[0] == 0:
                        if fault == 'kill':
                            os._exit(99)
                        sys.settrace(None)
                        raise KeyboardInterrupt
                return trace
            cnt = Count()
            if fault in ('kill', 'exc'):
                sys.settrace(trace)
            elif fault == 'count':
                sys.settrace(cnt)
            elif fault in ('full', 'full_kill'):
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if fault == 'full' else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))
            try:
                fn()
                res = 'returned'
            except BaseException as e:       # noqa
                res = 'raised ' + type(e).__name__
            sys.settrace(None)
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            os.write(w, ('%s|%d|%s' % (res, cnt.n, after(res))).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return data.decode() or 'ended|0|'


AFTER = None


def after(res):
    return AFTER(res) if AFTER else ''


def arrays(gp):
    return {k: np.array(v, copy=True) for k, v in gp.export_data_surr(save2file=False).items()}


def equal(a, b):
    return set(a) == set(b) and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k]), equal_nan=np.asarray(a[k]).dtype.kind == 'f') for k in a)


def case(ctx, rng, d):
    global AFTER
    sc = gen.gen(rng, nmax=4, dmax=3, moderate=True, noises=['zero', 'known'], alpha_types=('float',), allow_dup=False)
    from gpgradpy.src.GaussianProcess import GaussianProcess as GP
    base = os.path.join(os.path.abspath(d), 'surr')

    def new():
        g = GP(sc.dim, sc.use_grad, sc.kernel, sc.wc, path_data_surr=base)
        for k, v in sc.opts.items():
            setattr(g, k, v)
        g.init_optz_surr(nmax)
        return g
    nmax = int(rng.integers(2, 5)) if rng.random() < 0.8 else int(rng.integers(50, 400))
    gp = new()
    inf = sc.short()
    gen.put_data(gp, sc)

    def put(i):
        hp = gen.mk_hp(gp, {**sc.hp, 'varK': sc.hp['varK'] * float(rng.uniform(0.1, 10))})
        gp.store_new_para_surr(i, hp, cond_val=float(10 ** rng.uniform(1, 9)), time_hp_optz=float(rng.random()))
    put(0)
    kind = 'npz' if rng.random() < 0.5 else 'txt'
    names = 'default'
    if kind == 'npz':
        cur, old = base + '.npz', base + '_old.npz'
        kw = {}
        if rng.random() < 0.4:
            names = 'given'
            cur, old = base + 'X.npz', base + 'Y.npz'
            kw = dict(file2save=cur, file2save_old=old)

        def save():
            gp.export_data_surr(**kw)
    else:
        cur, old = base + '.txt', base + '_old.txt'

        def save():
            gp.get_txt_info_surr(False, True)
    ok, _ = ctx.guard('save:' + kind, save, info=inf)
    if not ok:
        return
    if rng.random() < 0.5:
        put(0)
        ok, _ = ctx.guard('save:' + kind, save, info=inf)
        if not ok:
            return

    def read(p):
        return open(p, 'rb').read() if os.path.isfile(p) else None
    f0 = {p: read(p) for p in (cur, old)}
    v1 = f0[cur]
    if v1 is None:
        ctx.violation('no_file:' + kind, None, info=inf)
        return
    m1 = {k: np.array(v) for k, v in np.load(cur).items()} if kind == 'npz' else None
    put(1)
    if rng.random() < 0.3:
        put(0)
    want = arrays(gp) if kind == 'npz' else gp.get_txt_info_surr(False, False)

    def complete():
        """the file holds exactly the new content"""
        try:
            if kind == 'npz':
                with np.load(cur) as z:
                    return equal({k: z[k] for k in z.files}, want)
            return open(cur).read() == want
        except Exception:       # noqa
            return False

    def reset():
        for p in (cur, old):
            if os.path.isdir(p):
                shutil.rmtree(p)
            if f0[p] is None:
                if os.path.exists(p):
                    os.remove(p)
            else:
                open(p, 'wb').write(f0[p])
    mem0 = arrays(gp)
    # lines of a save without a fault, and the file it writes
    AFTER = None
    n = int(child(save, 'count', 0).split('|')[1])
    size = os.path.getsize(cur) if os.path.isfile(cur) else 0
    if not complete() or n < 3:
        ctx.violation('save_differs:' + kind, dict(size=size, lines=n), info=inf)
        return
    for fault in FAULTS:
        reset()
        k = 0
        if fault in ('kill', 'exc'):
            # the first and the last lines are those of the package
            k = int(rng.integers(1, n + 1)) if rng.random() < 0.5 else int(rng.choice([rng.integers(1, min(n, 40) + 1), n - rng.integers(0, min(n, 40)), 1]))
        elif fault in ('full', 'full_kill'):
            k = int(rng.integers(0, max(size, 1))) if rng.random() < 0.8 else int(rng.choice([0, 1, max(size - 1, 0)]))
        elif fault == 'blocked':
            if os.path.exists(old):
                os.remove(old)
            os.makedirs(os.path.join(old, 'x'))

        def aft(res):
            # the object that failed to save is unchanged and of further use
            try:
                if not equal(arrays(gp), mem0):
                    return 'changed'
                other = base + 'Z.' + kind
                if kind == 'npz':
                    gp.export_data_surr(file2save=other, file2save_old=base + 'W.npz')
                    with np.load(other) as z:
                        good = equal({q: z[q] for q in z.files}, want)
                else:
                    gp.path_surr_txt, gp.path_surr_old_txt = other, base + 'W.txt'
                    gp.get_txt_info_surr(False, True)
                    good = open(other).read() == want
                os.remove(other)
                if not good:
                    return 'incomplete'
                put(0)
                return 'same'
            except Exception as e:      # noqa
                return type(e).__name__
        AFTER = aft
        out = child(save, fault, k).split('|')
        AFTER = None
        res = out[0].split()[0]
        ctx.count('fault:' + fault)
        ctx.count(kind)
        ctx.count(res)
        i2 = dict(sc=inf, kind=kind, fault=fault, at=k, of=n if fault in ('kill', 'exc') else size, outcome=out[0])
        sig = '%s:%s' % (kind, fault)
        if out[2:] and out[2]:
            ctx.count('memory_unchanged')
            if out[2] == 'changed':
                ctx.violation('history_changed:' + sig, None, info=i2)
            elif out[2] != 'same':
                ctx.violation('unusable_after:' + sig, dict(found=out[2]), info=i2)
        now = {p: read(p) for p in (cur, old)}
        # --- the completed save is still there
        ctx.count('kept')
        if now[cur] != v1 and now[old] != v1:
            ctx.violation('lost:' + sig, dict(name=None if now[cur] is None else len(now[cur]), old=None if now[old] is None else len(now[old]), saved=len(v1)), info=i2)
            continue
        done = complete()
        if res == 'returned':
            ctx.count('new_complete')
            if not done:
                ctx.violation('returned_without_saving:' + sig, dict(size=None if now[cur] is None else len(now[cur])), info=i2)
        if fault == 'none' and res != 'returned':
            ctx.violation('save:exc:' + sig, dict(out=out), info=i2)
        state = 'new' if done else 'before' if now[cur] == v1 else 'absent' if now[cur] is None else 'partial'
        if state == 'partial':
            ctx.count('partial_file')
        # --- a new object never takes a part of a file for a history
        if kind == 'npz' and names == 'default':
            q = new()
            try:
                q.load_data_surr()
                ctx.count('loaded')
                got = arrays(q)
                empty = arrays(new())
                if not (equal(got, want) if state == 'new' else equal(got, m1) if state == 'before' else equal(got, empty) if state == 'absent' else False):
                    ctx.violation('partial_load:' + sig, dict(state=state), info=i2)
            except Exception as e:       # noqa
                ctx.count('load_refused')
                if state != 'partial':
                    ctx.violation('load:exc:' + sig, dict(state=state, error=repr(e)[:200]), info=i2)
        # --- and the next save works
        if os.path.isdir(old):
            shutil.rmtree(old)
        ok, _ = ctx.guard('save_again:' + sig, save, info=i2)
        if ok:
            ctx.count('saved_again')
            if not complete():
                ctx.violation('save_again:' + sig, None, info=i2)
        ctx.nontrivial((kind, names, fault, out[0], state))
    ctx.sample(dict(case=inf, kind=kind, lines=n, bytes=size))

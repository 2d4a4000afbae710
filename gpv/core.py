"""Worker-side context and orchestrator."""
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
REPO = os.environ.get('GPV_REPO', '/repo')     # another tree only while developing the checks


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist())
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, (np.floating, float)):
        return float(v)
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    return repr(v)


class Ctx:
    """Collects what the monitors observed in one worker."""

    def __init__(self, prop, seed, tier, shard, only=None):
        self.prop, self.seed, self.tier, self.shard = prop, seed, tier, shard
        self.only = only
        self.ev = 0
        self.classes = {}
        self.counts = {}
        self.viol = []
        self.samples = []
        self.maxratio = {}
        self.inconc = []
        self.case_id = None
        self.quiet_out = None

    def rng(self, *key):
        h = hashlib.sha256(repr((self.seed, self.prop, self.shard['name'], key)).encode()).digest()
        return np.random.default_rng(list(h[:16]))

    def count(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + int(k)

    def nontrivial(self, cls):
        """register one distinct, non-trivial observed case class"""
        self.classes[repr(cls)] = self.classes.get(repr(cls), 0) + 1

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(jsonable(s))

    def violation(self, sig, detail=None, **kw):
        """sig: mechanism signature, stable across random values"""
        self.viol.append(dict(sig=sig, case=jsonable(self.case_id), detail=jsonable(detail), info=jsonable(kw), shard=self.shard))

    def inconclusive(self, why):
        self.inconc.append(why)

    def ratio(self, name, r):
        r = float(r)
        if r == r:
            self.maxratio[name] = max(self.maxratio.get(name, 0.0), r)

    def cases(self, n):
        """iterate over the case indices of this shard, with per-case rng"""
        for i in range(n):
            if self.only is not None and i != self.only:
                continue
            self.case_id = i
            self.ev += 1
            yield i, self.rng('case', i)

    # -- comparison helpers ------------------------------------------------
    def close(self, name, got, want, tol, sig, info=None):
        """monitor: |got-want| <= tol elementwise; records violation"""
        self.count('cmp:' + name)
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.violation(sig + ':shape', dict(got=got.shape, want=want.shape, name=name), info=info)
            return False
        g = got.astype(np.longdouble) if not np.iscomplexobj(got) else got
        with np.errstate(all='ignore'):
            err = np.abs(g - want)
            tol = np.broadcast_to(np.asarray(tol, dtype=float), err.shape)
            bad = ~(err <= tol)
            if err.size:
                self.ratio(name, np.max(np.where(tol > 0, err / np.where(tol > 0, tol, 1), np.where(err > 0, np.inf, 0))))
        if bad.any():
            k = np.argwhere(bad)[0]
            k = tuple(int(x) for x in k)
            self.violation(sig, dict(name=name, index=k, got=float(g[k]) if k else float(g), want=float(want[k]) if k else float(want),
                                     tol=float(tol[k]) if k else float(tol), nbad=int(bad.sum()), size=int(err.size)), info=info)
            return False
        return True

    def guard(self, sig, fn, *a, info=None, **kw):
        """run valid operation; an exception from the code under test is a violation"""
        try:
            return True, fn(*a, **kw)
        except Exception as e:       # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = [f'{os.path.basename(t.filename)}:{t.name}' for t in tb if '/gpgradpy/' in t.filename]
            self.violation(sig + ':exc:' + type(e).__name__, dict(error=str(e)[:400], where=where[-3:]), info=info)
            return False, None

    def result(self):
        return dict(ev=self.ev, classes=self.classes, counts=self.counts, viol=self.viol[:200], nviol=len(self.viol), samples=self.samples,
                    maxratio=self.maxratio, inconc=self.inconc[:20], shard=self.shard)


MODES = {
    'interp': {'NUMBA_DISABLE_JIT': '1'},
    'jit0': {'NUMBA_OPT': '0'},
    'jitb': {'NUMBA_OPT': '1', 'NUMBA_BOUNDSCHECK': '1'},
    'jit3': {},
}


def worker_env(mode, scratch, extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith('NUMBA_')}
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0',
             PYTHONPATH=REPO + os.pathsep + ROOT, PYTHONWARNINGS='ignore', NUMBA_CACHE_DIR=os.path.join(scratch, 'nb'))
    e.update(MODES[mode])
    e.update(extra or {})
    return e


CRASH = (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT)


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else dict(findings=[], fixed=[])


def line_coverage(results):
    """executed / executable lines inside functions of the package, and the first lines that were not reached"""
    seen = {}
    for r in results:
        for f, v in r.get('lines', {}).items():
            seen.setdefault(f, set()).update(v)
    out = {}
    for f, v in sorted(seen.items()):
        p = os.path.join(REPO, 'gpgradpy', f)
        if not os.path.exists(p):
            continue
        lines = set()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            todo = [compile(open(p, encoding='utf8').read(), p, 'exec')]
        while todo:
            c = todo.pop()
            todo += [k for k in c.co_consts if hasattr(k, 'co_lines')]
            if c.co_name != '<module>' and c.co_flags & 2:
                lines |= {n for _, _, n in c.co_lines() if n and n > c.co_firstlineno}
        if lines & v:
            out[f] = dict(executed=len(lines & v), executable=len(lines))
            if os.environ.get('GPV_MISS'):
                out[f]['missed'] = sorted(lines - v)
    return out


def orchestrate(prop, tier, seed, replay=None, jobs=8):
    import importlib
    t0 = time.time()
    mod = importlib.import_module('gpv.checks.' + prop.lower())
    shards = mod.shards(tier)
    only = None
    if replay:
        r = json.load(open(replay))
        seed, tier = r['seed'], r['tier']
        shards = [r['shard']]
        only = r['case'] if isinstance(r['case'], int) else None
    scratch = tempfile.mkdtemp(prefix='gpv_')
    results, errors, pend, run = [], [], list(enumerate(shards)), []
    limit = 800 if tier == 'quick' else 3600 * 3
    while pend or run:
        while pend and len(run) < jobs:
            i, sh = pend.pop(0)
            out = os.path.join(scratch, f'o{i}.json')
            args = [PY, '-m', 'gpv.worker', prop, tier, str(seed), json.dumps(sh), out]
            if only is not None:
                args.append(str(only))
            log = open(os.path.join(scratch, f'l{i}.txt'), 'wb')
            wd = os.path.join(scratch, f'w{i}')
            os.mkdir(wd)
            p = subprocess.Popen(args, cwd=wd, env=worker_env(sh.get('mode', 'interp'), scratch, sh.get('env')), stdout=log, stderr=subprocess.STDOUT)
            run.append((p, i, sh, out, time.time(), log))
        time.sleep(0.05)
        for item in list(run):
            p, i, sh, out, ts, log = item
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > limit:
                    p.kill()
                    p.wait()
                    rc = 'timeout'
                else:
                    continue
            run.remove(item)
            log.close()
            tail = open(os.path.join(scratch, f'l{i}.txt'), 'rb').read()[-3000:].decode('utf8', 'replace')
            if rc == 0 and os.path.exists(out):
                results.append(json.load(open(out)))
            elif isinstance(rc, int) and rc < 0 and -rc in CRASH:
                results.append(dict(ev=1, classes={}, counts={'crash': 1}, samples=[], maxratio={}, inconc=[], nviol=1, shard=sh,
                                    viol=[dict(sig='crash:signal%d' % -rc, case=None, detail=tail[-800:], info={}, shard=sh)]))
            else:
                errors.append(f'shard {sh} rc={rc}: {tail[-1500:]}')
    # merge
    ev = sum(r['ev'] for r in results)
    classes, counts, mr, samples, viol, inconc = {}, {}, {}, [], [], []
    for r in results:
        for k, v in r['classes'].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r['maxratio'].items():
            mr[k] = max(mr.get(k, 0), v)
        samples += r['samples']
        viol += r['viol']
        inconc += r['inconc']
    known = load_known()
    kf = [k for k in known.get('findings', []) if k['property'] == prop]
    new, hit = [], {}
    for v in viol:
        for k in kf:
            if v['sig'] == k['sig']:
                hit.setdefault(k['sig'], (k, v))
                break
        else:
            new.append(v)
    need = mod.REQUIRED(tier) if hasattr(mod, 'REQUIRED') else {}
    if not replay and not new:
        for k, v in need.items():
            if counts.get(k, 0) < v:
                inconc.append(f'monitor {k} observed {counts.get(k, 0)} < required {v}')
    rp = None
    evd = os.environ.get('GPV_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(os.path.join(evd, 'replays'), exist_ok=True)
    if new:
        v = new[0]
        rp = os.path.join(evd, 'replays', f'{prop}.json')
        json.dump(dict(property=prop, seed=seed, tier=tier, shard=v['shard'], case=v['case'], violation=v,
                       others=[dict(sig=x['sig'], case=x['case'], detail=x['detail']) for x in new[1:30]]), open(rp, 'w'), indent=1)
    for k, v in hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    sigs = {}
    for v in new:
        sigs[v['sig']] = sigs.get(v['sig'], 0) + 1
    if not replay:
        json.dump(dict(property=prop, tier=tier, seed=seed, level='exploration',
                       coverage=dict(evaluations=ev, distinct_nontrivial=len(classes), rule=mod.RULE,
                                     samples=samples[:6] or [dict(note='no sample recorded')],
                                     monitor_events=counts, max_error_over_tolerance=mr, lines_of_functions_executed=line_coverage(results),
                                     shards=[dict(name=r['shard']['name'], mode=r['shard'].get('mode', 'interp'), cases=r['ev']) for r in results],
                                     most_frequent_classes=sorted(classes.items(), key=lambda kv: -kv[1])[:5]),
                       assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(new)),
                  open(os.path.join(evd, f'{prop}.json'), 'w'), indent=1)
    subprocess.run(['rm', '-rf', scratch])
    print(f'{prop} tier={tier} seed={seed} cases={ev} classes={len(classes)} events={sum(counts.values())} wall={time.time()-t0:.1f}s')
    if os.environ.get('GPV_VERBOSE'):
        print(json.dumps(counts, indent=0)[:3000])
        print({k: float('%.3g' % v) for k, v in mr.items()})
    if new:
        for k, v in sorted(sigs.items(), key=lambda kv: -kv[1])[:12]:
            print(f'  {v}x {k}')
        print('  first:', json.dumps(new[0]['detail'])[:600])
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if errors or inconc:
        for e in errors[:3]:
            print('ERROR', e)
        for e in inconc[:5]:
            print('INCONCLUSIVE', e)
        return 2
    return 0

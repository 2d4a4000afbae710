"""C19: the text report."""
import contextlib
import io
import os
import re
import numpy as np
from .. import gen
from . import c14

RULE = ('case = random model, options, and history (stored, partly empty, finished at any length); the tables and option lists of the text report are parsed and every cell is compared '
        'with the history array named by its header (relative error below the printed digits), every option with the attribute; stdout is captured, the text file, its backup and the '
        'whole directory are compared, and the state of the model is compared bitwise before and after; class = (kernel, noise, use_grad, dim, rows, print/save combination)')
ASSUMPTIONS = ['column headers and option names of the present report are the interface; further columns, options or digits would be accepted']


def shards(tier):
    k, n = (8, 400) if tier == 'quick' else (24, 1500)
    return [dict(name=f'i{i}', mode='interp', n=n) for i in range(k)]


def REQUIRED(tier):
    return {'cell': 30000, 'option': 15000, 'report': 1200, 'stdout': 3000, 'file_written': 300, 'backup': 100, 'no_file': 300, 'unchanged': 2500, 'many_dims': 120, 'empty_history': 15, 'nan_cell': 2000, 'long_history': 50, 'dims_11': 30}


SUMMARY = {'Kernel': 'hp_kernel_all', 'Mu': 'hp_beta_all', 'varK': 'hp_varK_all', 'varK / var_f': 'varK_var_fval'}
OPTZ = {'Time': ('time_hp_optz_all', 1), 'Success (%)': ('hp_optz_success', 100), 'Mean i': ('hp_optz_iter_mean', 1), 'Max i': ('hp_optz_iter_max', 1),
        'Con good %': ('hp_optz_con_good', 100), 'Cond': ('Kcov_cond_all', 1), 'At cond max?': ('Kcov_cond_at_max_all', 1)}
OPTIONS = ['dim', 'use_grad', 'wellcond_mtd', 'kernel_type', 'mean_fun_type', 'surr_name', 'b_has_noisy_data', 'b_optz_var_fval', 'b_optz_var_fgrad', 'optz_mtd', 'optz_n_x0',
           'optz_iter_max', 'optz_tol_obj', 'optz_tol_x', 'optz_log_hp_theta', 'optz_log_hp_var', 'optz_log_hp_kernel', 'lkd_optz_start_mtd',
           'lkd_hp_best_n_eval', 'lkd_varK_pnlt_use', 'lkd_varK_pnlt_lb_var', 'lkd_varK_pnlt_c1', 'lkd_varK_pnlt_c2', 'hp_const_n_eval', 'hp_lhs_bound_factor', 'hp_box_bound_factor',
           'hp_median_n_idx', 'hp_theta_init', 'hp_varK_init', 'hp_kernel_init', 'hp_var_fval_init', 'hp_var_fgrad_init', 'hp_theta_range', 'hp_varK_range', 'hp_kernel_range',
           'hp_var_fval_range', 'hp_var_fgrad_range', 'cond_eta_set_mtd', 'cond_eta_is_const', 'cond_eta_dflt', 'cond_max_target', 'cond_max', 'cond_max_abs', 'cond_norm',
           'cond_dist_min_dflt', 'cond_dist_max_dflt', 'cond_vreq_max_iter', 'cond_vreq_iter_tol']


def run(ctx):
    for i, rng in ctx.cases(ctx.shard['n']):
        one(ctx, rng, i)


def tables(text):
    """[(title, headers, rows of strings)]"""
    out, cur, last = [], None, ''
    for ln in text.split('\n'):
        if ln.strip().startswith('|'):
            c = [x.strip() for x in ln.strip().strip('|').split('|')]
            if cur is None:
                cur = (last.strip(), c, [])
                out.append(cur)
            elif re.fullmatch(r'[-+|: ]+', ln.strip()) and '--' in ln:
                continue
            else:
                cur[2].append(c)
        else:
            cur = None
            if ln.strip():
                last = ln
    return out


def near(got, want, rel):
    if np.isnan(want) or np.isnan(got):
        return bool(np.isnan(want) and np.isnan(got))
    if np.isinf(want) or np.isinf(got):
        return got == want
    return abs(got - want) <= rel * abs(want) + 1e-300


def options(rng, gp):
    u = lambda a, b: float('%.3g' % 10 ** rng.uniform(a, b))
    gp.optz_n_x0 = int(rng.integers(1, 9))
    gp.optz_iter_max = int(rng.integers(100, 400))
    gp.optz_tol_obj, gp.optz_tol_x = u(-14, -8), u(-14, -8)
    for k in ('optz_log_hp_theta', 'optz_log_hp_var', 'optz_log_hp_kernel', 'lkd_varK_pnlt_use'):
        setattr(gp, k, bool(rng.random() < 0.5))
    gp.lkd_optz_start_mtd = str(rng.choice(['hp_best', 'lhs']))
    gp.lkd_hp_best_n_eval = int(rng.integers(10, 99))
    gp.lkd_varK_pnlt_lb_var, gp.lkd_varK_pnlt_c1, gp.lkd_varK_pnlt_c2 = u(-3, 0), u(-1, 1), u(0, 2)
    gp.hp_const_n_eval = int(rng.integers(1, 5))
    gp.hp_lhs_bound_factor, gp.hp_box_bound_factor = u(1, 3), u(3.1, 5)
    gp.hp_median_n_idx = int(rng.integers(1, 30))
    gp.hp_theta_init, gp.hp_varK_init, gp.hp_var_fval_init, gp.hp_var_fgrad_init = u(-3, 0), u(-2, 2), u(-6, 0), u(-6, 0)
    for k in ('hp_theta_range', 'hp_varK_range', 'hp_var_fval_range', 'hp_var_fgrad_range'):
        setattr(gp, k, [u(-9, -4), u(2, 8)])
    gp.cond_eta_dflt = u(-9, -6)
    gp.cond_max_target = u(8, 9.5)
    gp.cond_max, gp.cond_max_abs = u(9.6, 11), u(12, 16)
    gp.cond_norm = 2 if rng.random() < 0.5 else 'fro'
    gp.cond_vreq_max_iter = int(rng.integers(1, 7))
    gp.cond_vreq_iter_tol = u(-3, 0)


def val(rng):
    r = rng.random()
    if r < 0.05:
        return 0.0
    if r < 0.1:
        return float(rng.integers(1, 1000))
    return float(rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 12)) if r < 0.2 else float(10 ** rng.uniform(-12, 12))


def one(ctx, rng, icase):
    big = rng.random()
    sc = gen.gen(rng, nmax=4, alpha_types=('float', 'array'), **(dict(dmin=8, dmax=14, ndata_max=80) if big < 0.05 else dict(dmax=7)))
    from gpgradpy.src.GaussianProcess import GaussianProcess
    d = os.path.join(os.getcwd(), f'c{icase}')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'surr')
    name = str(rng.choice(['obj_', 'con_1_', 'x']))
    gp = GaussianProcess(sc.dim, sc.use_grad, sc.kernel, sc.wc, 'poly_ord_0', path, name)
    for k, v in sc.opts.items():
        setattr(gp, k, v)
    options(rng, gp)
    inf = dict(sc=sc.short())
    if not ctx.guard('set_data', gen.put_data, gp, sc, info=inf)[0]:
        return
    # --- history
    n = int(rng.integers(1, 8)) if big < 0.96 else int(rng.integers(20, 260))
    ctx.count('long_history', n > 60)
    ctx.count('dims_11', sc.dim >= 11)
    gp.init_optz_surr(n)
    if rng.random() < 0.2 and n > 1:
        ok, _ = ctx.guard('set_hpara', gp.set_hpara, 'set', 0, gen.mk_hp(gp, sc.hp), info=inf)
    for i in range(n):
        if rng.random() < 0.2:
            continue
        hp = gp.make_hp_class(np.array([val(rng)]), np.array([abs(val(rng)) for _ in range(sc.dim)]), abs(val(rng)) if sc.kernel == 'RatQu' else None, abs(val(rng)),
                              abs(val(rng)) if sc.unk_f else None, abs(val(rng)) if sc.unk_g and sc.use_grad else None)
        so = None
        if rng.random() < 0.7:
            so = dict(hp_optz_success=float(rng.random()), hp_optz_iter_mean=float(rng.uniform(1, 90)), hp_optz_iter_max=float(rng.integers(1, 250)), hp_optz_con_good=float(rng.random()),
                      optz_n_cho_fail=int(rng.integers(3)), optz_n_cond2big=int(rng.integers(3)), optz_max_init_cond=float(10 ** rng.uniform(1, 12)))
        cond = float(10 ** rng.uniform(0, 16)) if rng.random() < 0.7 else float(gp.cond_max)
        ctx.guard('store', gp.store_new_para_surr, i, hp, so, cond, float(10 ** rng.uniform(-4, 3)), 0.1, 0.2, info=inf)
    # further statistics in random rows, so that no two columns coincide
    if rng.random() < 0.3:
        k = int(rng.integers(0, n + 1))
        ctx.guard('finish', gp.finish_optz_surr, k, info=inf)
        n = k
    gp.print_txt_data, gp.save_data_txt = bool(rng.random() < 0.3), bool(rng.random() < 0.3)
    state = lambda: c14.snap({k: v for k, v in vars(gp).items()})
    s0 = state()

    def call(nm, *a, **kw):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            ok, t = ctx.guard(nm, getattr(gp, nm), *a, info=inf, **kw)
        ctx.count('unchanged')
        if state() != s0:
            ctx.violation(nm + ':model changed', None, info=inf)
        return (t, buf.getvalue()) if ok else (None, buf.getvalue())
    # --- the parts
    parts = {}
    for nm in ('info_surr_options', 'info_surr_summary', 'info_surr_theta', 'info_surr_optz', 'info_surr_all_data'):
        p = bool(rng.random() < 0.5)
        t, so = call(nm, p)
        if t is None:
            return
        ctx.count('stdout')
        ctx.count('report')
        if so != (t + '\n' if p else ''):
            ctx.violation(nm + ':stdout', dict(asked=p, printed=len(so), text=len(t)), info=inf)
        parts[nm] = t
    check_options(ctx, gp, parts['info_surr_options'], inf)
    check_tables(ctx, gp, parts, n, inf)
    # --- the whole report
    files = {}
    cnt = 0
    for j in range(3):
        p, s = [(None, None), (True, False), (False, True), (True, True), (False, False)][int(rng.integers(5))]
        t, so = call('get_txt_info_surr', p, s)
        if t is None:
            return
        ctx.count('report')
        ep, es = gp.print_txt_data if p is None else p, gp.save_data_txt if s is None else s
        ctx.count('stdout')
        if so != (t + '\n' if ep else ''):
            ctx.violation('get_txt_info_surr:stdout', dict(asked=ep, printed=len(so), text=len(t)), info=inf)
        for nm, q in parts.items():
            if q not in t:
                ctx.violation('get_txt_info_surr:part missing', dict(part=nm), info=inf)
        if es:
            if cnt:
                files['surr_old.txt'] = files['surr.txt']
                ctx.count('backup')
            files['surr.txt'] = t
            cnt += 1
            ctx.count('file_written')
        else:
            ctx.count('no_file')
        got = {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))}
        if got != files:
            ctx.violation('get_txt_info_surr:files', dict(got={k: len(v) for k, v in got.items()}, want={k: len(v) for k, v in files.items()}, saved=es), info=inf)
            files = dict(got)
        # a value changed in between must show in the next report
        if n and rng.random() < 0.5:
            i = int(rng.integers(n))
            gp.hp_varK_all[i] = abs(val(rng)) + 1e-3
            gp.hp_theta_all[i, int(rng.integers(sc.dim))] = abs(val(rng))
            gp.Kcov_cond_all[i] = 10 ** rng.uniform(1, 9)
            s0 = state()
            for nm in parts:
                parts[nm] = call(nm, False)[0]
            check_tables(ctx, gp, parts, n, inf)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    os.rmdir(d)
    ctx.count('many_dims', sc.dim > 3)
    ctx.count('empty_history', n == 0)
    ctx.nontrivial((sc.kernel, sc.noise, sc.use_grad, min(sc.dim, 4), min(n, 3)))
    ctx.sample(dict(sc=sc.short(), rows=n, report=parts['info_surr_theta'][:200]))


def check_options(ctx, gp, text, inf):
    got = {}
    for ln in text.split('\n'):
        m = re.match(r'\s*(\w+)\s*=\s*(.*?)\s*$', ln)
        if m:
            got.setdefault(m.group(1), []).append(m.group(2))
    for k in OPTIONS:
        ctx.count('option')
        v = getattr(gp, k)
        if k not in got:
            ctx.violation('options:missing ' + k, None, info=inf)
            continue
        for t in got[k]:
            if t == str(v):
                continue
            try:
                if isinstance(v, (list, tuple)):
                    x = [float(s) for s in re.split(r'\s+-\s+|[,\[\]() ]+', t) if s]
                    good = len(x) == 2 and all(near(a, float(b), 0.051) for a, b in zip(x, v))
                else:
                    good = not isinstance(v, (str, bool)) and near(float(t), float(v), 0.0051)
            except ValueError:
                good = False
            if not good:
                ctx.violation('options:value ' + k, dict(text=t, value=v), info=inf)


def check_tables(ctx, gp, parts, n, inf):
    med = gp.dim > 3
    want = {}
    for h, a in SUMMARY.items():
        want[h] = np.asarray(getattr(gp, a)).reshape(n, -1)[:, 0] if n else np.zeros(0)
    if gp.b_optz_var_fval:
        want['hp var fun'] = gp.hp_var_fval_all
    if gp.b_optz_var_fgrad:
        want['hp var grad'] = gp.hp_var_fgrad_all
    th = gp.hp_theta_all
    if med:
        srt = np.sort(th, axis=1)
        m = gp.dim
        want['theta min'], want['theta max'] = srt[:, 0], srt[:, -1]
        want['theta median'] = (srt[:, (m - 1) // 2] + srt[:, m // 2]) / 2
        nanrow = np.isnan(th).any(axis=1)
        for h in ('theta min', 'theta max', 'theta median'):
            want[h] = np.where(nanrow, np.nan, want[h])
    else:
        for j in range(gp.dim):
            want['theta %d' % j] = th[:, j]
    wth = {'th%d' % j: th[:, j] for j in range(gp.dim)}
    wop = {h: s * np.asarray(getattr(gp, a), float) for h, (a, s) in OPTZ.items()}
    for nm, w, rel in (('info_surr_summary', want, 5.1e-5), ('info_surr_theta', wth, 5.1e-5), ('info_surr_optz', wop, 5.1e-6)):
        tb = tables(parts[nm])
        if len(tb) != 1:
            ctx.violation(nm + ':no table', dict(n=len(tb)), info=inf)
            continue
        one_table(ctx, nm, tb[0], w, n, rel, inf)
    tb = tables(parts['info_surr_all_data'])
    if len(tb) != 3:
        ctx.violation('info_surr_all_data:tables', dict(n=len(tb)), info=inf)
    else:
        for t, w, rel in zip(tb, (want, wth, wop), (5.1e-5, 5.1e-5, 5.1e-6)):
            one_table(ctx, 'info_surr_all_data', t, w, n, rel, inf)


def one_table(ctx, nm, t, want, n, rel, inf):
    _, head, rows = t
    if len(rows) != n or any(len(r) != len(head) for r in rows):
        ctx.violation(nm + ':rows', dict(rows=len(rows), want=n, cells=[len(r) for r in rows], headers=len(head)), info=inf)
        return
    for i, r in enumerate(rows):
        ctx.count('cell')
        if not near(float(r[0]), i, 1e-9):
            ctx.violation(nm + ':iteration', dict(row=i, text=r[0]), info=inf)
    for h, w in want.items():
        if head.count(h) != 1:
            ctx.violation(nm + ':header ' + re.sub(r'\d+', '#', h), dict(headers=head), info=inf)
            continue
        j = head.index(h)
        for i, r in enumerate(rows):
            ctx.count('cell')
            ctx.count('nan_cell', bool(np.isnan(w[i])))
            try:
                g = float({'True': 1.0, 'False': 0.0}.get(r[j], r[j]))
            except ValueError:
                g = np.inf
            if not near(g, float(w[i]), rel):
                ctx.violation(nm + ':value ' + re.sub(r'\d+', '#', h), dict(row=i, text=r[j], want=w[i]), info=inf)

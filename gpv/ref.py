"""Independent reference Gaussian process in extended precision.

Nothing in this file imports or copies gpgradpy: kernels are written as a
scalar profile k(s) of s = sum theta_i r_i^2 with analytic derivatives in s,
and all covariance blocks follow from the chain rule.  numpy.longdouble
(80-bit) is used throughout; numpy.clongdouble for complex-step derivatives.
"""
import numpy as np

LD = np.longdouble
CLD = np.clongdouble
EPS = 2.0 ** -52


def ld(a):
    a = np.asarray(a)
    if np.iscomplexobj(a):
        return a.astype(CLD)
    return a.astype(LD)


# ---------------------------------------------------------------- kernels
def profile(kern, s, alpha=None, m=2):
    """[k, k', ..., k^(m)] as functions of s (arrays), any precision."""
    out = []
    if kern == 'SqExp':
        e = np.exp(-s)
        sg = 1
        for _ in range(m + 1):
            out.append(sg * e)
            sg = -sg
    elif kern == 'Ma5f2':
        a = np.sqrt(LD(5))
        nu = np.sqrt(s)
        e = np.exp(-a * nu)
        out.append((1 + a * nu + (LD(5) / 3) * s) * e)
        if m >= 1:
            out.append(-(LD(5) / 6) * (1 + a * nu) * e)
        if m >= 2:
            out.append((LD(25) / 12) * e)
        if m >= 3:
            with np.errstate(all='ignore'):
                k3 = np.where(nu == 0, 0, -(25 * a / 24) * e / np.where(nu == 0, 1, nu))
            out.append(k3)
    elif kern == 'RatQu':
        al = alpha
        b = 1 + s / al
        coef = 1
        p = b ** (-al)
        for j in range(m + 1):
            out.append(coef * p)
            coef = coef * (-(al + j) / al)
            p = p / b
    else:
        raise ValueError(kern)
    return out


def diffs(X, Y):
    """R[d,i,j] = X[i,d]-Y[j,d]"""
    X = ld(X)
    Y = ld(Y)
    return X.T[:, :, None] - Y.T[:, None, :]


def _s(R, th):
    s = th[0] * R[0] ** 2
    for d in range(1, R.shape[0]):
        s = s + th[d] * R[d] ** 2
    return s


def kbase(kern, X, Y, th, al=None):
    return kbase_R(kern, diffs(X, Y), th, al)


def kbase_R(kern, R, th, al=None):
    return profile(kern, _s(ld(R), ld(th)), al, 0)[0]


def kfull(kern, X, Y, th, al=None, m1=None, m2=None):
    """Covariance of [f(X); d1 f(X_m1); d2 f(X_m1)...] with the same at Y."""
    return kfull_R(kern, diffs(X, Y), th, al, m1, m2)


def _assemble(val, gy, gx, gg, d, m1, m2):
    """val [n1,n2]; gy(j) cov(f, d_j f'); gx(i); gg(i,j)"""
    rows = [[val] + [gy(j)[:, m2] for j in range(d)]]
    for i in range(d):
        rows.append([gx(i)[m1, :]] + [gg(i, j)[m1][:, m2] for j in range(d)])
    return np.block(rows)


def _masks(n1, n2, m1, m2):
    return (np.ones(n1, bool) if m1 is None else np.asarray(m1, bool)), (np.ones(n2, bool) if m2 is None else np.asarray(m2, bool))


def kfull_R(kern, R, th, al=None, m1=None, m2=None, mag=False):
    """mag=True: sum of the magnitudes of the terms of every entry"""
    th, R = ld(th), ld(R)
    d, n1, n2 = R.shape
    k0, k1, k2 = profile(kern, _s(R, th), al, 2)
    m1, m2 = _masks(n1, n2, m1, m2)
    sg = -1
    if mag:
        k0, k1, k2, R, sg = abs(k0), abs(k1), abs(k2), abs(R), 1
    g = [2 * th[i] * R[i] for i in range(d)]

    def gg(i, j):
        b = sg * k2 * g[i] * g[j]
        return b + sg * 2 * th[i] * k1 if i == j else b
    return _assemble(k0, lambda j: sg * k1 * g[j], lambda i: k1 * g[i], gg, d, m1, m2)


def kbase_grad_th_R(kern, R, th, al=None, mag=False):
    th, R = ld(th), ld(R)
    k1 = profile(kern, _s(R, th), al, 1)[1]
    if mag:
        k1 = abs(k1)
    return np.array([k1 * R[a] ** 2 for a in range(R.shape[0])])


def kfull_grad_th_R(kern, R, th, al=None, m1=None, m2=None, mag=False):
    """analytic d/dtheta_a of kfull_R: [d, N1, N2]"""
    th, R = ld(th), ld(R)
    d, n1, n2 = R.shape
    k0, k1, k2, k3 = profile(kern, _s(R, th), al, 3)
    m1, m2 = _masks(n1, n2, m1, m2)
    sg = -1
    if mag:
        k1, k2, k3, R, sg = abs(k1), abs(k2), abs(k3), abs(R), 1
    g = [2 * th[i] * R[i] for i in range(d)]
    out = []
    for a in range(d):
        ra2 = R[a] ** 2

        def gx(i):
            v = k2 * ra2 * g[i]
            return v + k1 * 2 * R[i] if a == i else v

        def gg(i, j):
            v = sg * k3 * ra2 * g[i] * g[j]
            if a == i:
                v = v + sg * k2 * 2 * R[i] * g[j]
            if a == j:
                v = v + sg * k2 * g[i] * 2 * R[j]
            if i == j:
                v = v + sg * 2 * th[i] * k2 * ra2
                if a == i:
                    v = v + sg * 2 * k1
            return v
        out.append(_assemble(k1 * ra2, lambda j: sg * gx(j), gx, gg, d, m1, m2))
    return np.array(out)


def dprofile_dal(s, al, m=2, mag=False):
    """d/dalpha of the RatQu profile derivatives"""
    out = []
    al = LD(al)
    b = 1 + s / al
    lb = np.log(b)
    for j in range(m + 1):
        c = LD(1)
        dc = LD(0)
        for q in range(j):
            f, df = -(al + q) / al, q / al ** 2
            dc = dc * f + c * df
            c = c * f
        p = b ** (-al - j)
        t = (al + j) * s / (al ** 2 * b)
        if mag:
            out.append(abs(dc) * p + abs(c) * p * (lb + t))
        else:
            out.append(dc * p + c * p * (t - lb))
    return out


def kbase_grad_al_R(R, th, al, mag=False):
    return dprofile_dal(_s(ld(R), ld(th)), al, 0, mag)[0][None]


def kfull_grad_al_R(R, th, al, m1=None, m2=None, mag=False):
    th, R = ld(th), ld(R)
    d, n1, n2 = R.shape
    k0, k1, k2 = dprofile_dal(_s(R, th), al, 2, mag)
    m1, m2 = _masks(n1, n2, m1, m2)
    sg = 1 if mag else -1
    if mag:
        R = abs(R)
    g = [2 * th[i] * R[i] for i in range(d)]

    def gg(i, j):
        b = sg * k2 * g[i] * g[j]
        return b + sg * 2 * th[i] * k1 if i == j else b
    return _assemble(k0, lambda j: sg * k1 * g[j], lambda i: k1 * g[i], gg, d, m1, m2)[None]


def kern_diag_vec(kern, d, n, ng, th, al=None):
    """diagonal of the kernel matrix: 1 and -2 theta_i k'(0)"""
    th = ld(th)
    z = np.zeros(1, dtype=th.dtype)
    k1 = profile(kern, z, al, 1)[1][0]
    return np.concatenate([np.ones(n, th.dtype)] + [np.full(ng, -2 * th[i] * k1) for i in range(d)])


def khess_x(kern, x, Y, th, al=None, use_grad=True, m2=None):
    """d^2/dx_a dx_b of cov(f(x), [f(Y); grads(Y_m2)]) -> [d,d,ndata]; x is [d]"""
    th = ld(th)
    R = diffs(ld(x)[None, :], Y)[:, 0, :]       # d, n
    d, n = R.shape
    k0, k1, k2, k3 = profile(kern, _s(R[:, None, :], th)[0], al, 3)
    m2 = np.ones(n, bool) if m2 is None else np.asarray(m2, bool)
    g = 2 * th[:, None] * R
    H = []
    for a in range(d):
        rowb = []
        for b in range(d):
            v = k2 * g[a] * g[b]
            if a == b:
                v = v + 2 * th[a] * k1
            parts = [v]
            if use_grad:
                for j in range(d):
                    t = k3 * g[a] * g[b] * g[j]
                    if a == j:
                        t = t + k2 * 2 * th[a] * g[b]
                    if b == j:
                        t = t + k2 * 2 * th[b] * g[a]
                    if a == b:
                        t = t + k2 * 2 * th[a] * g[j]
                    parts.append((-t)[m2])
            rowb.append(np.concatenate(parts))
        H.append(rowb)
    return np.array(H)


# ---------------------------------------------------------- linear algebra
class NotPD(Exception):
    pass


def chol(A):
    A = np.array(A)
    n = A.shape[0]
    L = np.zeros_like(A)
    cplx = np.iscomplexobj(A)
    for j in range(n):
        p = A[j, j]
        if not (p.real if cplx else p) > 0:
            raise NotPD(j)
        r = np.sqrt(p)
        L[j:, j] = A[j:, j] / r
        if j + 1 < n:
            c = L[j + 1:, j]
            A[j + 1:, j + 1:] -= c[:, None] * c[None, :]
    return L


def solve_L(L, B):
    B = np.array(np.broadcast_to(B, B.shape), dtype=np.result_type(L, B))
    n = L.shape[0]
    for i in range(n):
        B[i] = B[i] / L[i, i]
        if i + 1 < n:
            if B.ndim == 1:
                B[i + 1:] -= L[i + 1:, i] * B[i]
            else:
                B[i + 1:] -= L[i + 1:, i][:, None] * B[i][None, :]
    return B


def solve_LT(L, B):
    B = np.array(B, dtype=np.result_type(L, B))
    n = L.shape[0]
    for i in range(n - 1, -1, -1):
        B[i] = B[i] / L[i, i]
        if i > 0:
            if B.ndim == 1:
                B[:i] -= L[i, :i] * B[i]
            else:
                B[:i] -= L[i, :i][:, None] * B[i][None, :]
    return B


def chosolve(L, B):
    return solve_LT(L, solve_L(L, B))


def logdet(L):
    return 2 * np.sum(np.log(np.diag(L)))


def mm(A, B):
    """matrix product; longdouble matmul is slow but fine here"""
    return np.dot(A, B)


# ------------------------------------------------------------ GP in ref form
class Model:
    """GP model in its (possibly scaled) working space.

    X [n,d], mask (bool n) or None, use_grad, fvec data vector (values, then
    gradients coordinate-major), noise variances per datum, kernel, th, al,
    beta, varK, eta, mode 'base' | 'precon' (how the nugget enters)."""

    def __init__(self, kern, X, mask, use_grad, yvec, noise, th, al, beta, varK, eta, mode):
        self.kern, self.use_grad, self.mode = kern, use_grad, mode
        self.X = ld(X)
        self.n, self.d = self.X.shape
        self.mask = np.ones(self.n, bool) if mask is None else np.asarray(mask, bool)
        self.ng = int(self.mask.sum()) if use_grad else 0
        self.y, self.noise = ld(yvec), ld(noise)
        self.th, self.al = ld(th), (None if al is None else ld(al))
        self.beta = None if beta is None else ld(beta)
        self.varK = None if varK is None else ld(varK)
        self.eta = ld(eta)

    def kern_mat(self, X=None):
        X = self.X if X is None else X
        if self.use_grad:
            return kfull(self.kern, X, X, self.th, self.al, self.mask, self.mask)
        return kbase(self.kern, X, X, self.th, self.al)

    def reg(self, Kern, varK=None):
        """Kern + noise/varK + nugget, i.e. covariance / varK"""
        varK = self.varK if varK is None else varK
        A = Kern.copy() if np.iscomplexobj(Kern) else Kern.astype(np.result_type(Kern, self.noise, np.asarray(varK)))
        n = A.shape[0]
        i = np.arange(n)
        A[i, i] += self.noise / varK
        if self.mode == 'precon':
            A[i, i] += self.eta * A[i, i]
        else:
            A[i, i] += self.eta
        return A

    def ones(self):
        v = np.zeros(self.y.size, LD)
        v[:self.n] = 1
        return v

    def posterior(self, Xe, grad=False, hess=False, pert=None, xamp=0.0, amp=8.0):
        """dict of mu, sig2 (+ derivatives) in working space."""
        Xe = ld(Xe)
        X = self.X
        rng = pert
        if rng is not None and xamp:
            X = X * (1 + xamp * EPS * rng.standard_normal(X.shape))
            Xe = Xe * (1 + xamp * EPS * rng.standard_normal(Xe.shape))
        Kern = self.kern_mat(X)
        A = self.reg(Kern)
        dg = np.sqrt(np.diag(A))
        if rng is not None:
            E = rng.standard_normal(A.shape)
            E = (E + E.T) / 2
            A = A + amp * EPS * E * dg[:, None] * dg[None, :]
        L = chol(A)
        r = self.y - self.beta * self.ones()
        if rng is not None:
            r = r + 4 * EPS * (np.abs(self.y) + abs(self.beta) * self.ones()) * rng.standard_normal(r.shape)
        w = chosolve(L, r)
        m, d, n = Xe.shape[0], self.d, self.n
        if self.use_grad:
            kx = kfull(self.kern, Xe, X, self.th, self.al, None, self.mask)   # m(1+d) x N
        else:
            kx = kfull(self.kern, Xe, X, self.th, self.al, None, np.zeros(n, bool))
        if rng is not None:
            dd = np.sqrt(kern_diag_vec(self.kern, d, m, m, self.th, self.al))
            kd = np.sqrt(np.diag(Kern))
            kx = kx + amp * EPS * rng.standard_normal(kx.shape) * dd[:, None] * kd[None, :]
        kv = kx[:m]
        V = solve_L(L, kv.T)                   # N x m
        sig2 = self.varK * (1 - np.sum(V * V, axis=0))
        mu = self.beta + mm(kv, w)
        out = dict(mu=mu, sig2=sig2)
        if grad or hess:
            kd = kx[m:]                        # coordinate major
            out['dmu'] = mm(kd, w).reshape(d, m).T
            Kiv = solve_LT(L, V)               # N x m
            ds = np.empty((m, d), LD)
            for a in range(d):
                ds[:, a] = -2 * self.varK * np.sum(kd[a * m:(a + 1) * m].T * Kiv, axis=0)
            out['dsig2'] = ds
        if hess:
            H = np.empty((m, d, d), LD)
            S = np.empty((m, d, d), LD)
            for p in range(m):
                h = khess_x(self.kern, Xe[p], X, self.th, self.al, self.use_grad, self.mask)
                if rng is not None:
                    sc = np.sqrt(np.outer(self.th, self.th))
                    h = h + amp * EPS * 4 * rng.standard_normal(h.shape) * sc[:, :, None] * np.sqrt(np.diag(Kern))[None, None, :]
                H[p] = mm(h, w)
                Wd = solve_L(L, kd[p::m].T)    # rows a*m+p -> N x d
                S[p] = -2 * self.varK * (mm(h, Kiv[:, p]) + mm(Wd.T, Wd))
            out['d2mu'], out['d2sig2'] = H, S
        return out

    # ---- likelihood pieces -------------------------------------------------
    def gls(self, L):
        F = self.ones()
        KiF = chosolve(L, F)
        return np.sum(KiF * self.y) / np.sum(KiF * F)


def lkd(kern, X, mask, use_grad, y, noise, th, al, varK, eta, mode, noisy, pert=None, pnlt=None, fscl=None, amp=8.0, E=None):
    """log marginal likelihood pieces; th/al/varK/noise may be complex."""
    M = Model(kern, X, mask, use_grad, y, np.zeros(len(y)), th, al, None, None, eta, mode)
    M.noise = ld(noise)
    Kern = M.kern_mat()
    A = M.reg(Kern, varK=(ld(varK) if noisy else LD(1)))
    dg = np.sqrt(np.abs(np.diag(A)).real)
    if E is not None:
        A = A + amp * EPS * E * dg[:, None] * dg[None, :]
    if noisy:
        A = A * ld(varK)
    L = chol(A)
    beta = M.gls(L)
    r = M.y - beta * M.ones()
    w = chosolve(L, r)
    q = np.sum(r * w)
    ldet = logdet(L)
    n = len(y)
    res = dict(beta=beta, lndet=ldet, A=A, L=L)
    if noisy:
        res['ln_lkd'] = -(ldet + q) / 2
        res['varK'] = varK
    else:
        v = q / n
        res['varK'] = v
        pen = 0
        if pnlt is not None:
            c1, c2, lb = pnlt
            vf = max(np.var(ld(fscl)), LD(lb))
            mx = v - c2 * vf
            if (mx.real if np.iscomplexobj(mx) else mx) > 0:
                pen = c1 * vf * mx ** 2
        res['ln_lkd'] = -(n * np.log(v) + ldet) / 2 - pen
    return res

"""Reference models, in plain NumPy (float64), written from the definitions in
the documentation and the papers it cites -- never from calls into tensorD.

Everything here is deliberately boring: explicit loops over index tuples where
an index map is the point, textbook formulas elsewhere."""
import itertools

import numpy as np

# --------------------------------------------------------------------------
# index maps


def kolda_perm(order, mode):
    """Row index = mode; columns: remaining modes, lowest mode varying fastest
    (Kolda & Bader), i.e. in C order the highest remaining mode comes first."""
    return [mode] + [m for m in range(order - 1, -1, -1) if m != mode]


def unfold(X, mode):
    X = np.asarray(X)
    rest = [m for m in range(X.ndim) if m != mode]
    rows = X.shape[mode]
    cols = 1
    for m in rest:
        cols *= X.shape[m]
    out = np.zeros((rows, cols), X.dtype)
    for idx in itertools.product(*[range(s) for s in X.shape]):
        j, stride = 0, 1
        for m in rest:                       # lowest remaining mode is fastest
            j += idx[m] * stride
            stride *= X.shape[m]
        out[idx[mode], j] = X[idx]
    return out


def unfold_fast(X, mode):
    X = np.asarray(X)
    return np.transpose(X, kolda_perm(X.ndim, mode)).reshape(X.shape[mode], -1)


def t2mat(X, r, c):
    """General matricization, first axis of each group varying slowest."""
    X = np.asarray(X)
    nr = int(np.prod([X.shape[a] for a in r], dtype=int))
    nc = int(np.prod([X.shape[a] for a in c], dtype=int))
    out = np.zeros((nr, nc), X.dtype)
    for idx in itertools.product(*[range(s) for s in X.shape]):
        i = 0
        for a in r:
            i = i * X.shape[a] + idx[a]
        j = 0
        for a in c:
            j = j * X.shape[a] + idx[a]
        out[i, j] = X[idx]
    return out


def vectorize(X):
    X = np.asarray(X)
    return np.array([X[i] for i in itertools.product(*[range(s) for s in X.shape])], X.dtype)


# --------------------------------------------------------------------------
# products


def mode_product(X, M, mode):
    """X x_mode M,  M is (J, I_mode)."""
    X = np.asarray(X)
    out = np.tensordot(M, X, axes=(1, mode))          # J first
    return np.moveaxis(out, 0, mode)


def ttm(X, mats, axes, transpose=False):
    for M, a in zip(mats, axes):
        X = mode_product(X, np.asarray(M).T if transpose else np.asarray(M), a)
    return X


def contract(A, B, a_axis, b_axis):
    return np.tensordot(A, B, axes=(list(a_axis), list(b_axis)))


def kron(mats):
    out = np.asarray(mats[0])
    for M in mats[1:]:
        M = np.asarray(M)
        r, c = out.shape
        p, q = M.shape
        new = np.zeros((r * p, c * q), np.result_type(out, M))
        for i in range(r):
            for j in range(c):
                new[i * p:(i + 1) * p, j * q:(j + 1) * q] = out[i, j] * M
        out = new
    return out


def khatri(mats):
    out = np.asarray(mats[0])
    for M in mats[1:]:
        M = np.asarray(M)
        new = np.zeros((out.shape[0] * M.shape[0], out.shape[1]), np.result_type(out, M))
        for i in range(out.shape[0]):
            for j in range(M.shape[0]):
                new[i * M.shape[0] + j] = out[i] * M[j]
        out = new
    return out


def hadamard(mats):
    out = np.array(mats[0])
    for M in mats[1:]:
        out = out * np.asarray(M)
    return out


def kruskal(factors, lambdas=None):
    R = factors[0].shape[1]
    shape = tuple(f.shape[0] for f in factors)
    lam = np.ones(R) if lambdas is None else np.asarray(lambdas, float).reshape(-1)
    out = np.zeros(shape)
    for r in range(R):
        t = np.array(lam[r])
        for f in factors:
            t = np.multiply.outer(t, np.asarray(f, float)[:, r])
        out += t
    return out


def tucker(core, factors):
    return ttm(np.asarray(core, float), [np.asarray(f, float) for f in factors], range(len(factors)))


# --------------------------------------------------------------------------
# losses


def rmse(A, B):
    A, B = np.asarray(A, float), np.asarray(B, float)
    return np.sqrt(np.sum((A - B) ** 2) / A.size)


def rmse_nz(A, B):
    A, B = np.asarray(A, float), np.asarray(B, float)
    m = A != 0
    return np.sqrt(np.sum((A - B)[m] ** 2) / np.sum(m))


def relres(X, F):
    X, F = np.asarray(X, float), np.asarray(F, float)
    return np.linalg.norm((F - X).ravel()) / np.linalg.norm(X.ravel())


def objective(X, F):
    X, F = np.asarray(X, float), np.asarray(F, float)
    return 0.5 * np.sum((F - X) ** 2)


# --------------------------------------------------------------------------
# training loop: control part, shared by the iterative models


class Control(object):
    """Stopping rule and momentum decision, from the published algorithms as
    implemented in the Matlab code the project follows:  the objective change is
    relative to the best objective so far (BCU) / the first one (others)."""

    def __init__(self, tol, bcu):
        self.tol, self.bcu = tol, bcu
        self.obj0 = None
        self.nstall = 0

    def step(self, obj, rel):
        """Returns (stop, decreased)."""
        if self.obj0 is None:
            self.obj0 = obj + 1
        crit = abs(obj - self.obj0) / (self.obj0 + 1) < self.tol
        self.nstall = self.nstall + 1 if crit else 0
        if self.nstall >= 3 or rel < self.tol:
            return True, None
        if not self.bcu:
            return False, None
        dec = obj < self.obj0
        if dec:
            self.obj0 = obj
        return False, dec


# --------------------------------------------------------------------------
# one-step models.  Each has .step() -> full tensor and .decide(decreased).


def _others(n, order):
    """Mode order used with the Kolda unfolding: highest mode first."""
    return [m for m in range(order - 1, -1, -1) if m != n]


class Noisy(object):
    """With a RandomState in `noise`, intermediate results carry relative errors of
    1e-6 (of the terms they are computed from), about ten float32 roundings."""
    noise = None

    def bend(self, M, *terms):
        if self.noise is None:
            return M
        e = 1e-6 * self.noise.uniform(-1, 1, size=np.shape(M))
        return M + e * (sum(np.max(np.abs(t)) for t in terms) if terms else M)


class CPModel(Noisy):
    bcu = False

    def __init__(self, X, init):
        self.X = np.asarray(X, float)
        self.A = [np.array(a, float) for a in init]
        self.lam = None
        self.cond = 1.0

    def step(self):
        N = self.X.ndim
        for n in range(N):
            oth = _others(n, N)
            V = self.bend(hadamard([self.A[m].T @ self.A[m] for m in oth]))
            self.cond = max(self.cond, np.linalg.cond(V))
            K = khatri([self.A[m] for m in oth])
            M = self.bend(unfold_fast(self.X, n) @ K) @ np.linalg.pinv(V, rcond=len(V) * 1.2e-7)
            lam = np.abs(M).max(axis=0)
            self.margin = np.min(np.abs(lam)) / max(np.max(np.abs(M)), 1e-300)
            self.A[n] = M / lam
            self.lam = lam
        return kruskal(self.A, self.lam)

    def decide(self, dec):
        pass


class NCPModel(Noisy):
    bcu = True

    def __init__(self, X, init):
        self.X = np.asarray(X, float)
        N = self.X.ndim
        self.A = [np.array(a, float) for a in init]
        self.Am = [a.copy() for a in self.A]
        self.A0 = [a.copy() for a in self.A]
        self.L = [1.0] * N
        self.L0 = [1.0] * N
        self.t0 = self.t = 1.0

    def step(self):
        N = self.X.ndim
        for n in range(N):
            oth = _others(n, N)
            V = hadamard([self.A[m].T @ self.A[m] for m in oth])
            K = khatri([self.A[m] for m in oth])
            self.L0[n] = self.L[n]
            self.L[n] = np.linalg.norm(V, 2)
            P, Q = self.Am[n] @ V, unfold_fast(self.X, n) @ K
            G = self.bend(P - Q, P, Q)
            self.A[n] = np.maximum(0, self.bend(self.Am[n] - G / self.L[n], self.Am[n], G / self.L[n]))
        self.t = (1 + np.sqrt(1 + 4 * self.t0 ** 2)) / 2
        return kruskal(self.A)

    def decide(self, dec):
        N = self.X.ndim
        if dec:
            w = (self.t0 - 1) / self.t
            for n in range(N):
                wn = min(w, np.sqrt(self.L0[n] / self.L[n]))
                self.Am[n] = self.A[n] + wn * (self.A[n] - self.A0[n])
                self.A0[n] = self.A[n].copy()
            self.t0 = self.t
        else:
            self.Am = [a.copy() for a in self.A0]


class NTuckerModel(Noisy):
    bcu = True

    def __init__(self, X, init, core):
        self.X = np.asarray(X, float)
        N = self.X.ndim
        self.A = [np.array(a, float) for a in init]
        self.Am = [a.copy() for a in self.A]
        self.A0 = [a.copy() for a in self.A]
        self.g = np.array(core, float)
        self.gm = self.g.copy()
        self.g0 = self.g.copy()
        self.L = [1.0] * (N + 1)
        self.L0 = [1.0] * (N + 1)
        self.t0 = self.t = 1.0

    def step(self):
        N = self.X.ndim
        AtA = [a.T @ a for a in self.A]
        self.L0[N] = self.L[N]
        self.L[N] = float(np.prod([np.linalg.norm(m, 2) for m in AtA]))
        P, Q = ttm(self.gm, AtA, range(N)), ttm(self.X, self.A, range(N), transpose=True)
        G = self.bend(P - Q, P, Q)
        self.g = np.maximum(0, self.bend(self.gm - G / self.L[N], self.gm, G / self.L[N]))
        for n in range(N):
            oth = [m for m in range(N) if m != n]
            B = unfold_fast(ttm(self.g, [self.A[m] for m in oth], oth), n)
            BB = B @ B.T
            self.L0[n] = self.L[n]
            self.L[n] = np.linalg.norm(BB, 2)
            P, Q = self.Am[n] @ BB, unfold_fast(self.X, n) @ B.T
            G = self.bend(P - Q, P, Q)
            self.A[n] = np.maximum(0, self.bend(self.Am[n] - G / self.L[n], self.Am[n], G / self.L[n]))
        self.t = (1 + np.sqrt(1 + 4 * self.t0 ** 2)) / 2
        return tucker(self.g, self.A)

    def decide(self, dec):
        N = self.X.ndim
        if dec:
            w = (self.t0 - 1) / self.t
            for n in range(N):
                wn = min(w, np.sqrt(self.L0[n] / self.L[n]))
                self.Am[n] = self.A[n] + wn * (self.A[n] - self.A0[n])
                self.A0[n] = self.A[n].copy()
            wn = min(w, np.sqrt(self.L0[N] / self.L[N]))
            self.gm = self.g + wn * (self.g - self.g0)
            self.g0 = self.g.copy()
            self.t0 = self.t
        else:
            self.Am = [a.copy() for a in self.A0]
            self.gm = self.g0.copy()


def leading(M, r):
    """Leading left singular vectors and the relative gap after them."""
    u, s, _ = np.linalg.svd(M, full_matrices=False)
    nxt = s[r] if r < len(s) else (0.0 if r < M.shape[0] else -np.inf)
    gap = np.inf if nxt == -np.inf else (s[r - 1] - nxt) / max(s[0], 1e-300)
    return u[:, :r], gap


class HOSVDModel(object):
    bcu = False

    def __init__(self, X, ranks):
        self.X = np.asarray(X, float)
        self.ranks = ranks
        self.gap = np.inf

    def step(self):
        N = self.X.ndim
        self.A = []
        for n in range(N):
            u, g = leading(unfold_fast(self.X, n), self.ranks[n])
            self.gap = min(self.gap, g)
            self.A.append(u)
        self.g = ttm(self.X, self.A, range(N), transpose=True)
        return tucker(self.g, self.A)


class HOOIModel(object):
    bcu = False

    def __init__(self, X, ranks):
        self.X = np.asarray(X, float)
        self.ranks = ranks
        h = HOSVDModel(X, ranks)
        h.step()
        self.A, self.gap = h.A, h.gap

    def step(self):
        N = self.X.ndim
        for n in range(N):
            oth = [m for m in range(N) if m != n]
            Y = ttm(self.X, [self.A[m] for m in oth], oth, transpose=True)
            self.A[n], g = leading(unfold_fast(Y, n), self.ranks[n])
            self.gap = min(self.gap, g)
        self.g = ttm(self.X, self.A, range(N), transpose=True)
        return tucker(self.g, self.A)

    def decide(self, dec):
        pass


def simulate(model, X, steps, tol, script=None, forced=None):
    """Runs a one-step model under the control rule.

    script: optional list of (obj, rel) answers that replace the computed ones.
    forced: optional {step index: accept?}, overriding the accept decision where
    rounding could flip it.
    Returns the history, the decisions and the margins of every decision: `close`
    is how far (in residual norm, relative to the data) the accept decision was from a tie,
    `stopm` how far the stopping tests were from their thresholds."""
    ctl = Control(tol, model.bcu)
    hist, dec_log, near, stopm = [], [], [], []
    full = None
    nx = np.linalg.norm(np.asarray(X, float).ravel())
    for k in range(steps):
        full = model.step()
        hist.append((rmse_nz(X, full), relres(X, full)))
        obj, rel = objective(X, full), hist[-1][1]
        if script is not None:
            obj, rel = script[k]
        m = abs(rel - tol)
        c = np.inf
        if ctl.obj0 is not None:
            m = min(m, abs(abs(obj - ctl.obj0) / (ctl.obj0 + 1) - tol))
            c = abs(np.sqrt(2 * max(obj, 0)) - np.sqrt(2 * max(ctl.obj0, 0))) / nx
        old = ctl.obj0
        stop, dec = ctl.step(obj, rel)
        if not stop and forced and k in forced and forced[k] != dec:
            dec = forced[k]
            ctl.obj0 = obj if dec else old
        stopm.append(m)
        near.append(c)
        dec_log.append(dec)
        if stop:
            break
        if model.bcu and k + 1 < steps:
            model.decide(dec)
    return dict(hist=hist, full=full, decisions=dec_log, close=near, stopm=stopm,
                steps=len(hist))


# --------------------------------------------------------------------------
# pairwise-interaction operators (Chen, Lyu, King, Xu, NIPS 2013)


def center(M):
    M = np.asarray(M, float)
    return M - M.mean(axis=0, keepdims=True)


def svt(M, tao):
    u, s, vt = np.linalg.svd(M, full_matrices=False)
    return (u * np.maximum(s - tao, 0)) @ vt


def shrink(M, tao, mode):
    M = np.asarray(M, float)
    out = svt(center(M), tao)
    if mode == 'complicated':
        n = np.sqrt(M.size)
        d = M.sum() / n
        out = out + (max(0.0, d - tao) + min(0.0, d + tao)) / n * np.ones(M.shape)
    return out


PAIRS = ((0, 1, 2), (1, 2, 0), (2, 0, 1))    # (row mode, column mode, scaling mode) of each matrix


def pomega_mat(spl, M, shape, dim):
    r, c, s = PAIRS[dim]
    return np.array([M[spl[r][i]][spl[c][i]] for i in range(len(spl[0]))], float) / np.sqrt(shape[s])


def adjoint(spl, v, shape, dim):
    r, c, _ = PAIRS[dim]
    out = np.zeros((shape[r], shape[c]))
    for i in range(len(spl[0])):
        out[spl[r][i], spl[c][i]] += v[i]
    return out


def pomega_tensor(spl, T):
    return np.array([T[spl[0][i]][spl[1][i]][spl[2][i]] for i in range(len(spl[0]))], float)


def pomega_pair(spl, X, Y, Z, shape):
    return sum(pomega_mat(spl, M, shape, d) for d, M in enumerate((X, Y, Z)))


def cone(x, t):
    x = np.asarray(x, float)
    n = np.linalg.norm(x)
    if n <= t:
        return x, float(t)
    if t <= -n:
        return np.zeros_like(x), 0.0
    a = (n + t) / (2 * n)
    return a * x, a * n

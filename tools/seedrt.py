"""Helpers for the demonstrations: set-up, and the textbook algorithms in NumPy."""
import os, sys, io, itertools, contextlib, tempfile
import tf1_mode
import tensorflow as tf
import numpy as np
tf.logging.set_verbosity(tf.logging.FATAL)
WORK = os.getcwd()
assert os.path.basename(WORK).startswith('demo.'), 'run me through demo.sh'


def graph(seed=1):
    tf.reset_default_graph()
    tf.set_random_seed(seed)
    np.random.seed(seed)


def ev(*a):
    with tf.Session() as s:
        r = s.run(list(a))
    return r[0] if len(r) == 1 else r


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def env(X, sub='log', once=False):
    from tensorD.factorization.env import Environment
    from tensorD.dataproc.provider import Provider
    p = Provider()
    p.full_tensor = lambda: X
    return Environment(p, summary_path=os.path.join(WORK, sub))


def start():
    """Initial values of the variables of the current graph (seeded, so the same in every session)."""
    with tf.Session() as s:
        s.run(tf.global_variables_initializer())
        return s.run(tf.global_variables())


def kolda(X, n):
    return np.transpose(X, [n] + [m for m in range(X.ndim - 1, -1, -1) if m != n]).reshape(X.shape[n], -1)


def ttm(X, mats, skip=None, T=False):
    for n, M in enumerate(mats):
        if n != skip:
            M = M.T if T else M
            X = np.moveaxis(np.tensordot(M, X, (1, n)), 0, n)
    return X


def kruskal(U, lam=None):
    R = U[0].shape[1]
    lam = np.ones(R) if lam is None else np.ravel(lam)
    out = 0
    for r in range(R):
        t = lam[r]
        for u in U:
            t = np.multiply.outer(t, u[:, r])
        out = out + t
    return out


def kr(mats):
    out = mats[0]
    for m in mats[1:]:
        out = (out[:, None, :] * m[None, :, :]).reshape(-1, out.shape[1])
    return out


def rmse_nz(X, F):
    w = X != 0
    return np.sqrt(((X - F)[w] ** 2).sum() / w.sum())


def relres(X, F):
    return np.linalg.norm(X - F) / np.linalg.norm(X)


def f64(xs):
    return [np.asarray(x, np.float64) for x in xs]


def als(X, A, steps):
    X = np.asarray(X, np.float64); A = f64(A); out = []
    for _ in range(steps):
        for n in range(X.ndim):
            rest = [A[m] for m in range(X.ndim) if m != n]
            V = np.prod([a.T @ a for a in rest], axis=0)
            B = kolda(X, n) @ kr(rest[::-1]) @ np.linalg.pinv(V)
            lam = np.abs(B).max(0)
            A[n] = B / lam
        out.append((list(A), lam, kruskal(A, lam)))
    return out


def bcu(X, A, steps, core=None):
    """Accelerated block-coordinate descent (Xu & Yin); returns per step (accepted?, core, A, full)."""
    X = np.asarray(X, np.float64); N = X.ndim; A = f64(A); nb = N + (core is not None)
    s = np.linalg.norm(X) ** (1. / nb)
    A = [a / np.linalg.norm(a) * s for a in A]
    Am, A0 = list(A), list(A)
    if core is not None:
        g = np.asarray(core, np.float64); g = g / np.linalg.norm(g) * s
        gm = g0 = g
    t0, L, out, obj0 = 1., np.ones(nb), [], None
    relu = lambda x: np.maximum(x, 0)
    for k in range(steps):
        L0 = L.copy()
        if core is not None:
            AtA = [a.T @ a for a in A]
            L[N] = np.prod([np.linalg.norm(m, 2) for m in AtA])
            g = relu(gm - (ttm(gm, AtA) - ttm(X, A, T=True)) / L[N])
        for n in range(N):
            B = kolda(ttm(g, A, n), n) if core is not None else kr([A[m] for m in range(N) if m != n][::-1]).T
            V = B @ B.T
            L[n] = np.linalg.norm(V, 2)
            A[n] = relu(Am[n] - (Am[n] @ V - kolda(X, n) @ B.T) / L[n])
        F = ttm(g, A) if core is not None else kruskal(A)
        obj = .5 * np.linalg.norm(X - F) ** 2
        if obj0 is None:
            obj0 = obj + 1
        t = (1 + np.sqrt(1 + 4 * t0 * t0)) / 2
        ok = obj < obj0
        out.append((ok, None if core is None else g, list(A), F))
        if ok:
            w = (t0 - 1) / t
            Am = [A[n] + min(w, np.sqrt(L0[n] / L[n])) * (A[n] - A0[n]) for n in range(N)]
            A0 = list(A)
            if core is not None:
                gm, g0 = g + min(w, np.sqrt(L0[N] / L[N])) * (g - g0), g
            t0, obj0 = t, obj
        else:
            Am = list(A0)
            if core is not None:
                gm = g0
    return out


def close(a, b, tol=1e-3):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.abs(a - b).max() <= tol * max(1., np.abs(b).max())


def check(ok, what):
    if not ok:
        print('FAIL:', what)
        sys.exit(1)


def done():
    print('ok')

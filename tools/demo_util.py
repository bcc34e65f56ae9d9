"""numerical helpers for the demonstrations"""
import sys
import numpy as np


def num_grad(f, ps, i, h=1e-5):
    """central differences of the dense array f(ps) in every entry of ps[i]"""
    p = np.asarray(ps[i], dtype=float)
    out = np.zeros(p.shape + np.shape(f(ps)))
    for idx in np.ndindex(*p.shape):
        d = np.zeros(p.shape)
        d[idx] = h
        up, dn = list(ps), list(ps)
        up[i], dn[i] = p + d, p - d
        out[idx] = (np.asarray(f(up), float) - np.asarray(f(dn), float)) / (2 * h)
    return out


def dense(t):
    return np.asarray(t.toarray() if hasattr(t, 'toarray') else t, dtype=float)


def same(a, b, tol=1e-6, what=''):
    a, b = np.asarray(a, float), np.asarray(b, float)
    a, b = np.broadcast_arrays(a, b)
    err = np.abs(a - b) / (1 + np.abs(b))
    if not np.all(err <= tol):
        print('MISMATCH', what)
        print(a)
        print(b)
        sys.exit(1)


def check(ok, what=''):
    if not ok:
        print('FAILED', what)
        sys.exit(1)

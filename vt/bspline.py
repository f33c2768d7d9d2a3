"""Reference interpolation through samples in time (clamped spline of given degree, averaged knots)."""
import numpy as np


def basis(i, d, t, k, last):
    if d == 0:
        return 1.0 if (k[i] <= t < k[i + 1]) or (t == last and k[i] < k[i + 1] == last) else 0.0
    r = 0.0
    if k[i + d] != k[i]:
        r += (t - k[i]) / (k[i + d] - k[i]) * basis(i, d - 1, t, k, last)
    if k[i + d + 1] != k[i + 1]:
        r += (k[i + d + 1] - t) / (k[i + d + 1] - k[i + 1]) * basis(i + 1, d - 1, t, k, last)
    return r


def interpolate(ts, xs, d, t):
    """xs: values (n) or (n, m)."""
    ts = np.asarray(ts, float)
    xs = np.asarray(xs, float)
    n = len(ts)
    lo, hi = ts[0], ts[-1]
    u = (ts - lo) / (hi - lo)
    k = np.zeros(n + d + 1)
    k[-(d + 1):] = 1.0
    for j in range(1, n - d):
        k[j + d] = u[j:j + d].mean()
    a = np.array([[basis(i, d, x, k, 1.0) for i in range(n)] for x in u])
    c = np.linalg.solve(a, xs)
    x = min(max((t - lo) / (hi - lo), 0.0), 1.0)
    return np.array([basis(i, d, x, k, 1.0) for i in range(n)]) @ c

"""Independent image finder: triangulated grid in the image plane, triangles whose mapped copy contains the
source, Newton refinement with finite-difference-free Jacobian from the map itself."""
import numpy as np


def jac(f, x, y, h=1e-6):
    a = np.array(f(np.array([x + h, x - h, x, x]), np.array([y, y, y + h, y - h])))
    return np.array([[a[0, 0] - a[0, 1], a[0, 2] - a[0, 3]], [a[1, 0] - a[1, 1], a[1, 2] - a[1, 3]]]) / (2 * h)


def newton(f, x, y, bx, by, step, tol=1e-12, n=60):
    for _ in range(n):
        g = np.array(f(np.array([x]), np.array([y])))[:, 0] - [bx, by]
        if not np.all(np.isfinite(g)):
            return None
        if np.hypot(*g) < tol:
            break
        J = jac(f, x, y)
        if not np.all(np.isfinite(J)) or abs(np.linalg.det(J)) < 1e-12:
            return None
        d = np.linalg.solve(J, g)
        r = np.hypot(*d)
        if r > step:
            d *= step / r
        x, y = x - d[0], y - d[1]
    g = np.array(f(np.array([x]), np.array([y])))[:, 0] - [bx, by]
    return (x, y) if np.hypot(*g) < 1e-9 else None


def find(f, bx, by, window, cx=0., cy=0., n=240, seed=0):
    """f(x, y) -> source plane; returns arrays x, y, mu (signed) of the images found."""
    off = window / n * .137
    g = (np.arange(n) / (n - 1.) - .5) * window
    X, Y = np.meshgrid(g + cx + off, g + cy + off * .7)
    u, v = f(X.ravel(), Y.ravel())
    u, v = u.reshape(X.shape) - bx, v.reshape(X.shape) - by
    h = g[1] - g[0]
    out = []
    for a, b, c in (((0, 0), (0, 1), (1, 0)), ((1, 1), (0, 1), (1, 0))):
        s = lambda Z, p: Z[p[0]:Z.shape[0] - 1 + p[0], p[1]:Z.shape[1] - 1 + p[1]]
        P = [(s(u, p), s(v, p)) for p in (a, b, c)]
        cr = [P[i][0] * P[(i + 1) % 3][1] - P[i][1] * P[(i + 1) % 3][0] for i in range(3)]
        ins = ((cr[0] >= 0) & (cr[1] >= 0) & (cr[2] >= 0)) | ((cr[0] <= 0) & (cr[1] <= 0) & (cr[2] <= 0))
        for i, j in zip(*np.nonzero(ins)):
            x0 = np.mean([s(X, p)[i, j] for p in (a, b, c)])
            y0 = np.mean([s(Y, p)[i, j] for p in (a, b, c)])
            r = newton(f, x0, y0, bx, by, h)
            if r is not None and np.hypot(r[0] - x0, r[1] - y0) < 6 * h and not any(np.hypot(r[0] - q[0], r[1] - q[1]) < 1e-6 for q in out):
                out.append(r)
    if not out:
        return np.zeros(0), np.zeros(0), np.zeros(0)
    mu = np.array([1. / np.linalg.det(jac(f, *r)) for r in out])
    x, y = np.array(out).T
    return x, y, mu

"""Independent reference models (none of this calls the tree under test)."""
import math
import numpy as np
from . import inputs as I

TAU = (1 + math.sqrt(5)) / 2
R3 = math.sqrt(3) / 2
_C = {}
DODE_M = np.array([[-R3, 1, 0, -.5, 0, 0], [-.5, 0, 1, -R3, 0, 0]])


def perp(pkg, a):
    """(...,6,3) exact coordinates -> float perpendicular-space positions (...,3) or (...,2)"""
    a = np.asarray(a, dtype=np.float64)
    if pkg == 'ico2':
        n = (a[..., 0] + a[..., 1] * TAU) / a[..., 2]
        t = TAU
        M = np.array([[t, -1, -1, 0, -t, 0], [-1, 0, 0, t, -1, t], [0, t, -t, 1, 0, -1]])
    else:
        n = (a[..., 0] + a[..., 1] * R3) / a[..., 2]
        M = DODE_M
    return n @ M.T


def centroids(fam, shift):
    k = (fam, tuple(shift))
    if k not in _C:
        d = I.data()[fam]
        a = I.build({'$': 'dom', 'name': fam, 'idx': list(range(len(d))), 'shift': list(shift)})
        _C[k] = perp(fam.split('.')[0], a).mean(axis=1)
    return _C[k]


# ------------------------------------------------- volume of an intersection
def _clip_tets(tets, n, d, eps=1e-12):
    """keep the part n.x <= d of a list of tetrahedra (4x3 float arrays)"""
    out = []
    for t in tets:
        s = t @ n - d
        ins = [i for i in range(4) if s[i] <= eps]
        ous = [i for i in range(4) if s[i] > eps]
        if not ous:
            out.append(t)
        elif ins:
            cut = lambda i, j: t[i] + (t[j] - t[i]) * (s[i] / (s[i] - s[j]))
            if len(ins) == 1:
                a = ins[0]
                out.append(np.array([t[a]] + [cut(a, j) for j in ous]))
            elif len(ins) == 3:
                o = ous[0]
                p = [t[i] for i in ins]
                c = [cut(i, o) for i in ins]
                out.append(np.array([p[0], p[1], p[2], c[2]]))
                out.append(np.array([p[0], p[1], c[1], c[2]]))
                out.append(np.array([p[0], c[0], c[1], c[2]]))
            else:
                a, b = ins
                u, v = ous
                A, B = t[a], t[b]
                au, av, bu, bv = cut(a, u), cut(a, v), cut(b, u), cut(b, v)
                out.append(np.array([A, au, av, bv]))
                out.append(np.array([A, au, bu, bv]))
                out.append(np.array([A, B, bu, bv]))
    return out


def _vol(t):
    return abs(np.dot(t[1] - t[0], np.cross(t[2] - t[0], t[3] - t[0]))) / 6.0


def tet_inter_volume(a, b):
    if (a.max(0) < b.min(0) - 1e-9).any() or (b.max(0) < a.min(0) - 1e-9).any():
        return 0.0
    parts = [a]
    for k in range(4):
        f = [b[i] for i in range(4) if i != k]
        n = np.cross(f[1] - f[0], f[2] - f[0])
        n = n / np.linalg.norm(n)
        d = n @ f[0]
        if n @ b[k] > d:
            n, d = -n, -d
        parts = _clip_tets(parts, n, d)
        if not parts:
            return 0.0
    return sum(_vol(t) for t in parts)


def _clip_poly(poly, n, d):
    out = []
    m = len(poly)
    for i in range(m):
        p, q = poly[i], poly[(i + 1) % m]
        sp, sq = n @ p - d, n @ q - d
        if sp <= 0:
            out.append(p)
        if (sp < 0 < sq) or (sq < 0 < sp):
            out.append(p + (q - p) * (sp / (sp - sq)))
    return out


def _area(poly):
    if len(poly) < 3:
        return 0.0
    x = np.array(poly)
    y = np.roll(x, -1, axis=0)
    return abs((x[:, 0] * y[:, 1] - x[:, 1] * y[:, 0]).sum()) / 2.0


def tri_inter_area(a, b):
    poly = [p for p in a]
    for k in range(3):
        p, q, o = b[k], b[(k + 1) % 3], b[(k + 2) % 3]
        n = np.array([q[1] - p[1], p[0] - q[0]])
        d = n @ p
        if n @ o > d:
            n, d = -n, -d
        poly = _clip_poly(poly, n, d)
        if not poly:
            return 0.0
    return _area(poly)


def measure(pkg, obj):
    """volume / area of a set of simplices given exactly (sum over simplices)"""
    if obj is None:
        return 0.0
    P = perp(pkg, obj)
    if pkg == 'ico2':
        return float(sum(_vol(t) for t in P))
    return float(sum(_area(list(t)) for t in P))


def inter_measure(pkg, o1, o2):
    P, Q = perp(pkg, o1), perp(pkg, o2)
    f = tet_inter_volume if pkg == 'ico2' else tri_inter_area
    return float(sum(f(a, b) for a in P for b in Q))


def inside_all(pkg, pts, obj, eps=1e-7):
    """every point lies in some simplex of obj"""
    P = perp(pkg, obj)
    pts = np.asarray(pts).reshape(-1, 6, 3)
    X = perp(pkg, pts)
    k = P.shape[1]
    for x in X:
        for t in P:
            A = np.vstack([t.T, np.ones(k)])
            b = np.append(x, 1.0)
            lam = np.linalg.solve(A, b)
            if (lam > -eps).all():
                break
        else:
            return False
    return True


# ------------------------------------------------------------- XYZ documents
def parse_xyz(text):
    """independent reader of the XYZ exchange format; None if not a complete document"""
    lines = text.split('\n')
    if len(lines) < 3 or lines[-1] != '' and False:
        return None
    try:
        n = int(lines[0])
    except ValueError:
        return None
    rows = []
    for ln in lines[2:2 + n]:
        tok = ln.split()
        if len(tok) != 28 or tok[0] != 'Xx':
            return None
        try:
            rows.append([int(x) for x in tok[10:28]])
        except ValueError:
            return None
    if len(rows) != n or len(lines) < n + 3:
        return None
    return np.array(rows, dtype=np.int64).reshape(n, 6, 3)

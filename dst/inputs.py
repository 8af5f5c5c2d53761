"""Deterministic input descriptions (JSON) and their materialisation as arrays.

An input is described by a small JSON value so that a scenario file is a
complete, replayable description of a run.  The geometric material is a fixed
data file (the icosahedral RT and STRT orbits and the dodecagonal orbit); it is
NOT produced by the tree under test, so the tree's state is never touched
while inputs are generated.
"""
import json, os
import numpy as np

_HERE = os.path.dirname(os.path.abspath(__file__))
_DATA = None


def data():
    global _DATA
    if _DATA is None:
        with open(os.path.join(_HERE, 'data', 'domains.json')) as f:
            _DATA = {k: np.array(v, dtype=np.int64) for k, v in json.load(f).items()}
    return _DATA


NVERT = {'ico2': 4, 'dode2': 3}
FAMS = {'ico2': ['ico2.rt', 'ico2.strt'], 'dode2': ['dode2.tri']}


def _addint(v, n):
    """[a,b,c] + n  ->  [a+n*c,b,c] (vectorised over the leading axes)"""
    v = v.copy()
    v[..., 0] += n * v[..., 2]
    return v


def numeric(a, how):
    """floating point version: 'perp:<pkg>' positions in internal space (3 components) or '6d:<pkg>' coordinates"""
    from . import model
    what, pkg = how.split(':')
    if what == '6d':
        t = model.TAU if pkg == 'ico2' else model.R3
        return (a[..., 0] + a[..., 1] * t) / a[..., 2]
    p = model.perp(pkg, a)
    if p.shape[-1] == 2:
        p = np.concatenate([p, np.zeros(p.shape[:-1] + (1,))], axis=-1)
    return p


def transform(a, tr):
    """related inputs: the same cells in another order, mirrored, scaled, shifted, partly replaced, ..."""
    k, x = tr
    a = np.array(a)
    if k == 'up':
        return a[None]
    if k == 'down':
        return a[0]
    if k == 'rev':
        return a[::-1]
    if k == 'roll':
        return np.roll(a, x, axis=0)
    if k == 'vroll' and a.ndim >= 4:
        return np.roll(a, x, axis=1)
    if k == 'neg' and a.ndim >= 2:
        a[..., :-1] *= -1
    elif k == 'scale' and a.ndim >= 2:
        a[..., :-1] *= x
    elif k == 'tau' and a.ndim >= 2:
        a[..., 1] += x
    elif k == 'last' and a.ndim >= 2 and a.shape[-1] == 3:
        a.reshape(-1, 3)[-1, 0] += x
    elif k == 'first' and a.ndim >= 2 and a.shape[-1] == 3:
        a.reshape(-1, 3)[0, 0] += x
    elif k == 'plus':
        a = a + x
    elif k == 'dup' and a.ndim >= 3:
        a = np.concatenate([a, a[:1]])
    elif k == 'drop' and a.ndim >= 3 and len(a) > 1:
        a = a[:-1]
    return a


def build(spec):
    """JSON spec -> python value (arrays are always fresh)."""
    if isinstance(spec, dict) and '$' in spec:
        kind = spec['$']
        if kind == 'dom':
            a = data()[spec['name']][spec['idx']].copy()
            sh = spec.get('shift')
            if sh:
                for k in range(6):
                    if sh[k]:
                        a[:, :, k, :] = _addint(a[:, :, k, :], sh[k])
            nv = spec.get('nv')
            if nv:
                r = spec.get('rot', 0)
                cols = [(r + j) % a.shape[1] for j in range(nv)]
                a = a[:, cols]
            form = spec.get('form', 'list')
            if form == 'flat':
                a = a.reshape(-1, 6, 3)
            elif form == 'one':
                a = a[0]
            elif form == 'vec':
                a = a[0][0]
        elif kind == 'i':
            a = np.array(spec['v'], dtype=np.int64)
        elif kind == 'f':
            a = np.array(spec['v'], dtype=np.float64)
        elif kind == 'none':
            return None
        elif kind == 'list':
            return [build(x) for x in spec['v']]
        elif kind == 'pos':          # floats of the perpendicular-space positions
            raise ValueError(kind)
        else:
            raise ValueError(kind)
        for tr in spec.get('tr', ()):
            a = transform(a, tr)
        if spec.get('num'):
            a = numeric(a, spec['num'])
        lay = spec.get('lay')
        if lay == 'F':
            a = np.asfortranarray(a)
        elif lay == 'view':
            b = np.zeros((2,) + a.shape, dtype=a.dtype)
            b[1] = a
            a = b[1]
        elif lay == 'stride':
            b = np.zeros(a.shape + (2,), dtype=a.dtype)
            b[..., 0] = a
            a = b[..., 0]
        elif lay == 'neg':
            a = np.ascontiguousarray(a[::-1])[::-1]
        elif lay == 'swap':
            a = np.ascontiguousarray(a.swapaxes(0, 1)).swapaxes(0, 1)
        elif lay == 'ro':
            a = np.ascontiguousarray(a)
            a.flags.writeable = False
        elif lay == 'be':
            a = a.astype('>i8')
        elif lay == 'i4':
            a = np.ascontiguousarray(a).astype(np.int32) if np.abs(a).max() < 2 ** 20 else np.ascontiguousarray(a)
        else:
            a = np.ascontiguousarray(a)
        return a
    if isinstance(spec, list):
        return [build(x) for x in spec]
    return spec


# ---------------------------------------------------------------- generators
def q(r, nz=False):
    while True:
        v = [r.randint(-6, 6), r.randint(-6, 6), r.choice([1, 1, 1, 2, 3])]
        if not nz or v[0] or v[1]:
            return v


def lit_q(r, nz=False):
    return {'$': 'i', 'v': q(r, nz)}


def lit_vec(r, n):
    return {'$': 'i', 'v': [q(r) for _ in range(n)]}


def lit_mat(r, n, m):
    return {'$': 'i', 'v': [[q(r) for _ in range(m)] for _ in range(n)]}


def intvec6(r, lo=-1, hi=1):
    return {'$': 'i', 'v': [[r.randint(lo, hi), 0, 1] for _ in range(6)]}


def zero6():
    return {'$': 'i', 'v': [[0, 0, 1]] * 6}


def shift6(r, pkg='ico2'):
    s = [0] * 6
    for _ in range(r.choice([0, 1, 1, 2])):
        s[r.randrange(6 if pkg == 'ico2' else 4)] = r.choice([-1, 1])
    return s


def dom(r, pkg, n=None, nmax=6, fam=None, shift=None, **kw):
    name = fam or r.choice(FAMS[pkg])
    size = {'ico2.rt': 120, 'ico2.strt': 360, 'dode2.tri': 24}[name]
    if n is None:
        n = r.randint(1, nmax)
    n = min(n, size)
    mode = r.randrange(3)
    if mode == 0:
        idx = sorted(r.sample(range(size), n))
    elif mode == 1:
        s = r.randrange(size)
        idx = [(s + i) % size for i in range(n)]
    else:
        idx = list(range(n))
    d = {'$': 'dom', 'name': name, 'idx': idx,
         'shift': shift6(r, pkg) if shift is None else shift}
    d.update(kw)
    return d


def layout(r, spec):
    """the same value in another memory layout"""
    if isinstance(spec, dict) and spec.get('$') in ('dom', 'i', 'f'):
        spec = dict(spec)
        lay = r.choice(['C', 'C', 'view', 'F', 'stride'])
        if lay != 'C':
            spec['lay'] = lay
    return spec


def neighbours(r, pkg, n):
    """n simplices of one orbit that share faces (a connected cluster)"""
    from .ops import cluster
    name = r.choice(FAMS[pkg])
    s = r.randrange(len(data()[name]))
    return {'$': 'dom', 'name': name, 'idx': cluster(r, name, s, n), 'shift': shift6(r, pkg)}


_PAIRS = None


def pairs():
    """pairs of simplices known (independent model) to overlap with positive measure"""
    global _PAIRS
    if _PAIRS is None:
        with open(os.path.join(_HERE, 'data', 'pairs.json')) as f:
            _PAIRS = json.load(f)
    return _PAIRS

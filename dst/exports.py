"""Export/import calls of the shipped packages as JSON descriptions.

{"k": kind, "pkg": package, "obj": spec, "path": dir, "base": name, "o": {options}}
`perform` executes one call through the public functions, `files` names the files
it must produce, `success` tells whether the call reported success to its caller.
"""
import os
import numpy as np
from . import inputs as I, ops, model, sim as S

KINDS = {
    'ico2': ['xyz', 'xyz', 'tri', 'edge', 'vtx', 'vesta', 'vesta-e', 'podatm', 'wpod', 'hand'],
    'dode2': ['xyz', 'xyz', 'edge', 'vtx', 'vesta', 'vesta-e', 'podatm', 'hand'],
}
FULL = {'ico2': 'tetrahedron', 'dode2': 'triangle'}
READABLE = ('xyz', 'tri', 'edge', 'vtx')
PATHS = ['out', 'out', 'out', './out', 'out/', 'o%d', 'out/a/b', 'out.d/x', 'd\u00e9p\u00f4t', 'out/\u30c7\u30fc\u30bf']
BASES = ['tmp', 'obj', 'od.1', '100%s', 'x.xyz', '{0}', 'a b', 'strt_100', '\u03c4-domain']


def mod(pkg):
    return ops.module(pkg, 'occupation_domain')


def lit_rows(r, n, k=None, big=None):
    """random exact coordinates, including large and negative ones"""
    big = big or r.choice([3, 99, 99999, 2**31 + 7, 2**53 + 3, 2**58])
    f = lambda: [[r.randint(-big, big), r.randint(-big, big), r.choice([1, 1, 2, 3, 5, 10, 11, 12])] for _ in range(6)]
    v = [[f() for _ in range(k)] for _ in range(n)] if k else [f() for _ in range(n)]
    return {'$': 'i', 'v': v}


def size(r, tier='quick'):
    m = r.random()
    return r.randint(1, 4) if m < .6 else r.randint(5, 14) if m < .9 else r.randint(15, 60) if m < .98 else r.randint(61, 120)


def gen_obj(r, pkg, k, n=None):
    n = n or size(r)
    if k == 'vesta' or k == 'vesta-e':
        n = min(n, 6)
    lay = r.choice([None, None, None, None, 'F', 'view', 'stride', 'neg', 'swap', 'ro', 'be', 'i4'])
    if k == 'xyz':
        if r.random() < .3:
            d = lit_rows(r, min(n, 20), I.NVERT[pkg])
        else:
            d = I.dom(r, pkg, n)
    elif k == 'tri':
        d = I.dom(r, pkg, n, nv=3, rot=r.randrange(4)) if r.random() < .6 else lit_rows(r, min(n, 20), 3)
    elif k == 'edge' or k == 'vesta-e':
        d = I.dom(r, pkg, n, nv=2, rot=r.randrange(3))
    elif k == 'vtx':
        d = I.dom(r, pkg, n, form='flat') if r.random() < .6 else lit_rows(r, min(n, 30))
    elif k == 'podatm':
        name = r.choice(I.FAMS[pkg])
        d = {'$': 'dom', 'name': name, 'idx': ops.cluster(r, name, r.randrange(len(I.data()[name])), r.randint(1, 4)),
             'shift': I.shift6(r, pkg)}
    elif k == 'wpod':
        d = I.dom(r, pkg, min(n, 6), form='flat')
    else:
        d = I.dom(r, pkg, min(n, 8))
    if k in READABLE and d['$'] == 'dom':
        m = r.randrange(6)
        if m == 0:                        # any order
            r.shuffle(d['idx'])
        elif m == 1 or n > len(d['idx']):  # any order, with repeated cells
            d['idx'] = [r.choice(d['idx']) for _ in range(max(n, 2))]
        if r.randrange(8) == 0:           # far from the origin
            s = r.choice([1000003, 2**33 + 1, 2**54 + 1])
            d['shift'] = [r.choice([0, s, -s]) for _ in range(6)]
    if lay:
        d['lay'] = lay
    return d


def same_rows(r, pkg, k, n, fixed):
    """n random cells; fixed: every row takes the same number of characters"""
    if not fixed:
        return gen_obj(r, pkg, k, n) if k != 'vtx' else lit_rows(r, n)
    m = {'xyz': I.NVERT[pkg], 'tri': 3, 'edge': 2, 'vtx': None}[k]
    f = lambda: [[r.randint(1, 9), r.randint(1, 9), 1] for _ in range(6)]
    v = [[f() for _ in range(m)] for _ in range(n)] if m else [f() for _ in range(n)]
    return {'$': 'i', 'v': v}


def gen(r, pkg=None, kinds=None, n=None, path=None, base=None):
    pkg = pkg or r.choice(['ico2', 'ico2', 'dode2'])
    k = r.choice([x for x in KINDS[pkg] if kinds is None or x in kinds])
    o = {}
    if k in ('xyz', 'tri', 'edge', 'vtx', 'vesta'):
        o['via'] = r.choice(['write', 'write', 'direct'])
    if k in ('vesta', 'vesta-e'):
        o['color'] = r.choice(['k', 'r', 'b', 'p', 'l', 'y', 'c', 's', 'red'])
    if k == 'podatm':
        o['serial'] = r.choice([1, 2, 17])
    if k == 'wpod':
        o['lists'] = r.choice([1, 1, 2, 3, 4, 6, 9])
    o['verbose'] = r.choice([0, 0, 0, 1])
    return {'k': k, 'pkg': pkg, 'obj': gen_obj(r, pkg, k, n),
            'path': path or r.choice(PATHS), 'base': base or r.choice(BASES), 'o': o}


def needs_dir(c):
    """these exporters expect an existing directory"""
    return c['k'] == 'hand' or (c['o'].get('via') == 'direct' and c['k'] in READABLE)


def files(c):
    p = os.path.normpath(os.path.join(c['path'], c['base']))
    return {'xyz': [p + '.xyz'], 'tri': [p + '.xyz'], 'edge': [p + '.xyz'], 'vtx': [p + '.xyz'], 'hand': [p + '.xyz'],
            'vesta': [p + '.vesta'], 'vesta-e': [p + '.vesta'],
            'podatm': [p + '.atm', p + '.pod'], 'wpod': [p + '.atm', p + '.pod']}[c['k']]


def sel(c):
    return {'xyz': FULL[c['pkg']], 'tri': 'triangle', 'edge': 'edge', 'vtx': 'vertex'}[c['k']]


def vlists(obj, n):
    m = len(obj)
    return [[1 + (3 * i + j) % m for j in range(4)] for i in range(n)]


def perform(c, obj, keep=None):
    """the call itself; the value is what the library returned
    keep: receives (argument, its value before the call) for further arguments"""
    m = mod(c['pkg'])
    k, o, path, base = c['k'], c['o'], c['path'], c['base']
    if k in READABLE:
        if o['via'] == 'write':
            return m.write(obj, path=path, basename=base, format='xyz', select=sel(c), verbose=o.get('verbose', 0))
        return m.write_xyz(obj, path=path, basename=base, select=sel(c), verbose=o.get('verbose', 0))
    if k == 'vesta':
        if o['via'] == 'write':
            return m.write(obj, path=path, basename=base, format='vesta', color=o['color'])
        return m.write_vesta(obj, path=path, basename=base, color=o['color'])
    if k == 'vesta-e':
        return m.write_vesta(obj, path=path, basename=base, color=o['color'], select='egdes')
    if k == 'podatm':
        return m.obj2podatm(obj, o['serial'], path, base)
    if k == 'wpod':
        v, p = vlists(obj, o['lists']), obj[0].copy()
        if keep is not None:
            keep += [(v, S.canon(v)), (p, S.canon(p))]
        return m.write_podatm(obj, p, v, path=path, basename=base)
    if k == 'hand':
        return m.simple_hand_step1(obj, path, base)
    raise ValueError(k)


def perform2(c, obj):
    """like perform, with the invalid options of a refused request"""
    m = mod(c['pkg'])
    o, path, base = c['o'], c['path'], c['base']
    if 'format' in o:
        return m.write(obj, path=path, basename=base, format=o['format'])
    if 'select' in o and c['k'] in READABLE:
        return m.write(obj, path=path, basename=base, format='xyz', select=o['select'])
    return perform(c, obj)


def success(out):
    """out: ('ok', canonical value) | ('exc', ..) | ('exit', ..)"""
    if out[0] != 'ok':
        return False
    v = out[1]
    if v[0] == 'int':
        return v[1] != 1
    if v[0] == 'bool':
        return bool(v[1])
    return True


def do_read(c, select=None, path=None, base=None, verbose=None):
    m = mod(c['pkg'])
    s = select or read_sel(c)
    if verbose is not None:
        return m.read_xyz(path or c['path'], base or c['base'], select=s, verbose=verbose)
    return m.read_xyz(path or c['path'], base or c['base'], select=s)


def read_sel(c):
    return FULL[c['pkg']] if c['k'] == 'xyz' else 'vertex'


def want_read(c, obj=None):
    """what a complete import of the exported object must give (exact)"""
    a = np.ascontiguousarray(I.build(c['obj']) if obj is None else obj).astype(np.int64)
    nv = I.NVERT[c['pkg']]
    return a.reshape(-1, nv, 6, 3) if read_sel(c) == FULL[c['pkg']] else a.reshape(-1, 6, 3)


def content_ok(c, obj, blobs):
    """independent check that the files are complete; returns None or a complaint"""
    k = c['k']
    try:
        texts = [b.decode('utf-8') for b in blobs]
    except UnicodeDecodeError:
        return 'file is not UTF-8 text'
    rows = np.ascontiguousarray(obj).reshape(-1, 6, 3)
    if k in READABLE:
        got = model.parse_xyz(texts[0])
        if got is None:
            return 'not a complete XYZ document'
        if got.shape != rows.shape or not (got == rows).all():
            return 'XYZ document holds %d rows that differ from the exported object' % len(got)
        return None
    if not texts[-1].endswith('\n'):
        return 'last line of the file is incomplete'
    P = model.perp(c['pkg'], rows)
    if k == 'hand':
        ls = texts[0].split('\n')
        if int(ls[0]) != len(ls) - 3:
            return 'vertex count differs from the number of lines'
        got = {tuple(int(x) for x in ln.split()[-18:]) for ln in ls[2:-1]}
        Q = model.perp(c['pkg'], np.array(sorted(got)).reshape(-1, 6, 3))
        return None if covers(Q, P) and covers(P, Q) else 'vertices of the file are not the vertices of the object'
    if k in ('vesta', 'vesta-e'):
        pts = []
        on = False
        for ln in texts[0].split('\n'):
            t = ln.split()
            if ln.startswith('STRUC'):
                on = True
            elif on and t[:1] == ['0']:
                on = False
            elif on and len(t) == 8:
                pts.append([float(t[4]), float(t[5]), float(t[6])][:P.shape[1]])
        if not pts or not covers(np.array(pts), P, 2e-6):
            return 'VESTA document misses vertices of the object'
        if not covers(P, np.array(pts), 2e-6):
            return 'VESTA document holds foreign vertices'
        return None
    if len(texts) == 2:
        n = sum(1 for ln in texts[1].split('\n') if ln.startswith('ej='))
        if k == 'podatm':
            uniq = len({tuple(np.round(p, 6) + 0.0) for p in P})
            if n != uniq - 1:
                return 'POD document lists %d of %d vertices' % (n, uniq - 1)
            if 'nth=' not in texts[1]:
                return 'POD document lacks its connection list'
        elif texts[1].count('nth=') != c['o']['lists'] or texts[0].count("'Em'") != c['o']['lists']:
            return 'POD/ATM documents are incomplete'
        if not texts[0].endswith('\n'):
            return 'ATM document is incomplete'
    return None


def covers(A, B, tol=1e-5):
    """every row of B is (numerically) a row of A"""
    A = np.asarray(A, dtype=float)
    for b in B:
        if not (np.abs(A - b).max(axis=1) < tol * max(1.0, np.abs(b).max())).any():
            return False
    return True

"""Precompute dst/data/convex.json: unions of face-connected cells of one orbit that are convex (independent float model)."""
import sys, os, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import numpy as np
from scipy.spatial import ConvexHull
from dst import inputs as I, model, ops as O

out = {}
for fam in ('ico2.rt', 'ico2.strt', 'dode2.tri'):
    pkg = fam.split('.')[0]
    D = I.data()[fam]
    P = model.perp(pkg, D)
    V = np.array([model.measure(pkg, d[None]) for d in D])
    r = random.Random(7)
    found = {}
    O.cluster(r, fam, 0, 2)
    nb = O._NB[fam]

    def convex(idx):
        try:
            return abs(ConvexHull(P[list(idx)].reshape(-1, P.shape[-1])).volume - V[list(idx)].sum()) < 1e-9
        except Exception:
            return False
    for _ in range(20000):
        if len(found) >= 150:
            break
        idx = [r.randrange(len(D))]
        goal = r.choice([2, 3, 4, 6, 8, 12])
        while len(idx) < goal:
            c = sorted({k for j in idx for k in nb[j]} - set(idx))
            if not c:
                break
            # prefer extensions that stay nearly convex
            r.shuffle(c)
            c.sort(key=lambda k: ConvexHull(P[idx + [k]].reshape(-1, P.shape[-1])).volume - V[idx + [k]].sum() + r.random() * 1e-3)
            idx.append(c[0])
            if convex(idx):
                found[tuple(sorted(idx))] = 1
    ks = sorted(found, key=lambda t: (len(t), t))
    r.shuffle(ks)
    out[fam] = sorted([list(k) for k in ks[:100]], key=lambda t: (len(t), t))
    print(fam, len(found), sorted({len(k) for k in out[fam]}), [sum(len(k) == n for k in out[fam]) for n in sorted({len(k) for k in out[fam]})])
json.dump(out, open(os.path.join(os.path.dirname(I.__file__), 'data', 'convex.json'), 'w'))

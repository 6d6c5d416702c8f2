"""C22: nonparametric two-stage least squares"""
import random

import numpy as np
import pandas as pd

from vp import *

BIG = 2 ** 31 - 1


def whole(v):
    v = float(v)
    return int(round(v)) if v == v and abs(v - round(v)) < 1e-6 and abs(v) < 2 ** 30 else BIG


def told(row):
    return [len(row), whole(sum(row)), whole(sum(x * x for x in row))]


class Stage:
    """a model which keeps what it is fitted to, and predicts from the sum and the sum of squares of a row"""

    def __init__(self, hat):
        self.hat, self.fits = hat, []

    def fit(self, X, y, **kw):
        X, y = np.array(X, dtype=float), np.array(y, dtype=float)
        self.m = y.shape[1] if y.ndim == 2 else 1
        y = y.reshape(len(y), -1)
        self.fits.append(dict(X=[told(r) for r in X], y=[told(r) for r in y]))
        return self

    def predict(self, X):
        X = np.asarray(X, dtype=float)
        s, q = X.sum(axis=1), (X ** 2).sum(axis=1)
        r = np.stack([j * s + q for j in range(1, self.m + 1)], axis=1)
        return r % 11 - 3 if self.hat else r


def basis(rnd, form_only=False):
    from sklearn.preprocessing import PolynomialFeatures
    d = rnd.choice([1, 1, 2, 2, 3])
    how = rnd.choice(['tuple', 'tuple', 'list', 'object'])
    b = dict(d=d, bias=True, mixed=False)
    if how == 'tuple':
        return ('Poly', d), b
    if how == 'list':
        return ['Poly', d], b
    b['bias'], b['mixed'] = rnd.random() < .5, rnd.random() < .3
    return PolynomialFeatures(degree=d, include_bias=b['bias'], interaction_only=b['mixed']), b


def study(seed):
    from ylearn.estimator_model.iv import NP2SLS
    rnd = random.Random(seed)
    n = rnd.randint(2, 7)
    nz, nx, D = rnd.choice([1, 1, 2]), rnd.choice([1, 1, 1, 2]), rnd.choice([1, 1, 2])
    nv, nw = rnd.choice([0, 1, 1, 2]), rnd.choice([0, 1, 2])
    zdisc, xdisc = rnd.random() < .35, rnd.random() < .25
    zlab = sorted(rnd.sample(range(-2, 6), 3)) if zdisc else list(range(-1, 3))
    xlab = sorted(rnd.sample(range(-2, 6), 3)) if xdisc else list(range(-1, 3))
    words = zdisc and rnd.random() < .5
    xwords = xdisc and rnd.random() < .4
    zs, xs, vs, ws, ys = ([f'{p}{i}' for i in range(k)] for p, k in (('z', nz), ('x', nx), ('v', nv), ('w', nw), ('y', D)))
    rnd.shuffle(zs)
    rnd.shuffle(xs)

    def rows(m, k, lab):
        return [[rnd.choice(lab) for _ in range(k)] for _ in range(m)]
    z, x, y = rows(n, nz, zlab), rows(n, nx, xlab), rows(n, D, range(-3, 4))
    small = range(-1, 3)

    def frame(z, x, v, w, y, m):
        cols = {}
        for names, R in ((zs, z), (xs, x), (vs, v), (ws, w), (ys, y)):
            for j, c in enumerate(names):
                cols[c] = [R[i][j] for i in range(m)]
        d = pd.DataFrame(cols)
        for c in (zs if words else []) + (xs if xwords else []):
            d[c] = ['abcdefgh'[a + 2] for a in d[c]]
        if rnd.random() < .3:
            d = d.astype({c: float for c in vs + ws + ys})
        d = d[rnd.sample(list(d.columns), d.shape[1])]
        d.index = rnd.sample(range(20, 20 + 3 * m), m)
        return d
    v, w = rows(n, nv, small), rows(n, nw, small)
    data = frame(z, x, v, w, y, n)
    (zb_, zb), (xb_, xb), (vb_, vb) = basis(rnd), basis(rnd), basis(rnd)
    if (nz == 1 or not zdisc) and zb['mixed'] and not zb['bias'] and nz == 0:
        return []
    kw = {}
    if zb_ != ('Poly', 2) or rnd.random() < .5:
        kw['instrument_basis'] = zb_
    if xb_ != ('Poly', 2) or rnd.random() < .5:
        kw['treatment_basis'] = xb_
    if vb_ != ('Poly', 2) or rnd.random() < .5:
        kw['covar_basis'] = vb_
    if zdisc or rnd.random() < .3:
        kw['is_discrete_instrument'] = zdisc
    a, b = Stage(True), Stage(False)
    one = lambda s: (s[0] if len(s) == 1 and rnd.random() < .6 else list(s)) if s else None
    e = dict(k='study', z=z, x=x, v=v, w=w, y=y, zb=zb, xb=xb, vb=vb, zdisc=zdisc, xdisc=xdisc, D=D, asks=[], raised='', _tag=str(seed),
             _class=f"study{' categories of instruments' if zdisc else ''}{' and treatments' if xdisc else ''}{' v' if nv else ''}{' w' if nw else ''}")
    keep = data.copy()

    def fit():
        return NP2SLS(x_model=a, y_model=b, is_discrete_treatment=xdisc).fit(data, one(ys), one(xs), one(zs), adjustment=one(ws), covariate=one(vs), **kw)
    ok, m = attempt(fit)
    if not ok:
        return [dict(e, raised=m)]
    seen = [sorted({r[j] for r in x}) for j in range(nx)]
    show = lambda r: ['abcdefgh'[t + 2] for t in r] if xwords else list(r)

    def value(mm):
        how = rnd.choice(['none', 'one', 'one', 'rows'])
        pick = lambda: [rnd.choice(seen[j]) if xdisc else rnd.choice(range(-1, 3)) for j in range(nx)]
        if how == 'none':
            if xdisc and any(len(s) < 2 for s in seen):
                how = 'one'
            else:
                return how, [], None
        if how == 'rows':
            R = [pick() for _ in range(mm)]
            arr = np.array([show(r) for r in R])
            return how, R, arr if nx > 1 or rnd.random() < .5 else arr[:, 0]
        R = pick()
        s = show(R)
        return how, [R], (s[0] if rnd.random() < .5 else s) if nx == 1 else rnd.choice([s, tuple(s), np.array(s), np.array([s])])
    for _ in range(4):
        q = rnd.choice(['each', 'each', 'ATE', 'CATE', 'CF', 'all'])
        if q == 'CATE' and not nv:
            q = 'ATE'
        if q == 'all' and not xdisc and rnd.random() < .3:
            q = 'each'
        new = rnd.random() < .6
        mm = rnd.randint(1, 4) if new else n
        if new:
            nx_ = [[rnd.choice(seen[j]) if xdisc else rnd.choice(range(-1, 3)) for j in range(nx)] for _ in range(mm)]
            V, W = rows(mm, nv, small), rows(mm, nw, small)
            d = frame(rows(mm, nz, zlab), nx_, V, W, rows(mm, D, range(-3, 4)), mm)
        else:
            nx_, V, W, d = x, v, w, rnd.choice([None, data])
        r = dict(quantity=q, x=nx_, v=V, w=W, thow='none', chow='none', treat=[], control=[], raised='')
        args = dict(data=d)
        if q in ('each', 'ATE', 'CATE'):
            r['thow'], r['treat'], t = value(mm)
            r['chow'], r['control'], u = value(mm)
            if t is not None:
                args['treat'] = t
            if u is not None:
                args['control'] = u
        dk = d.copy() if d is not None else None

        def go():
            if q == 'all':
                out = np.asarray(m.effect_nji(d), dtype=float)
                assert out.shape[:2] == (mm, D)
                r['out'] = [[[whole(z) for z in c] for c in i] for i in out]
                return
            out = np.asarray(m.estimate(quantity=None if q == 'each' else q, **args), dtype=float)
            if q in ('ATE', 'CATE'):
                assert out.size == D
                r['out'] = [[whole(z * mm) for z in out.reshape(-1)]]
            else:
                assert out.size == mm * D and len(out) == mm
                r['out'] = [[whole(z) for z in i] for i in out.reshape(mm, D)]
        ok, t = attempt(go)
        if not ok:
            r['raised'] = t
        elif dk is not None and not (dk.equals(d) and dk.index.equals(d.index)):
            r['raised'] = 'changed'
        e['asks'].append(r)
        if not ok:
            break
    e['kept'] = bool(keep.equals(data) and keep.index.equals(data.index))
    e['fit1'], e['fit2'] = a.fits, b.fits
    return [e]


def corrupt(e):
    if e['raised']:
        return None
    e['fit2'][0]['X'][0][1] += 1
    return e


def run():
    c = Check('C22', ['the two models are stand-ins which see a row of features through its sum and sum of squares, so that the order of the features does not matter'])
    c.model('MC_IV', 'MC_IV3.cfg' if thorough() else None)
    n = 8000 if thorough() else 1200
    a = SEED * 100000
    evs = [e for l in pmap(study, range(a, a + n), chunksize=20) for e in l]
    c.judge('Trace_IV', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

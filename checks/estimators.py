"""random studies with integer data for the estimators, shared by the checks of estimators"""
import random

import numpy as np
import pandas as pd

from vp import *
from stubs import *

LABELS = [[0, 1, 2], [1, 2, 5], ['a', 'b', 'c'], ['lo', 'hi', 'mid'], [-3, 0, 4], [10, 9, 100], ['t10', 't9', 't1'], [True, False], [0.5, 1.5, 2.5],
          ['2', '10', '1']]


class Study:
    """a data frame with its roles, and the same data as codes"""

    def __init__(self, rnd, n=None, n_treat=None, arms=None, D=None, classes=0, w=None, v=None, per_arm=2, ymax=4, fmax=1, prefix='', labels=None,
                 folds=1, numeric=False, cont=False):
        self.rnd = rnd
        nt = n_treat or rnd.choice([1, 1, 1, 2])
        self.nt = nt
        self.D = 1 if classes else D or rnd.choice([1, 1, 2])
        self.classes = classes
        nw = rnd.randint(0, 2) if w is None else w
        nv = rnd.randint(0, 2) if v is None else v
        if nw + nv == 0:
            nv = 1
        self.W = [prefix + c for c in ['w1', 'w0'][:nw]]
        self.V = [prefix + c for c in ['v', 'u'][:nv]]
        self.T = [prefix + c for c in ['treat', 'arm'][:nt]]
        self.Y = [prefix + c for c in ['y', 'out'][:self.D]]
        pool = labels or LABELS
        ks = [rnd.choice([2, 2, 3])] if nt == 1 else rnd.choice([[2, 2], [2, 2], [3, 2], [2, 3]])
        if arms:
            ks = [arms] * nt
        lab = [rnd.choice([l for l in pool if len(l) >= max(ks)]) for _ in range(nt)]
        if nt > 1:  # one array holds the labels of all treatments: no mixed types
            lab = [lab[0] if rnd.random() < .5 else [type(x)(x) for x in lab[0]] for _ in range(nt)]
        self.labels = [sorted(rnd.sample(list(l), k)) for l, k in zip(lab, ks)]
        combos = [(i,) for i in range(ks[0])] if nt == 1 else [(i, j) for i in range(ks[0]) for j in range(ks[1])]
        if cont:
            combos = [()]
        self.combos = combos
        n = n or rnd.randint(max(6, per_arm * len(combos)), max(11, per_arm * len(combos) + 3))
        n = max(n, per_arm * len(combos))
        while True:
            t = combos * per_arm
            t = t + [rnd.choice(combos) for _ in range(n - len(t))]
            if folds <= 1:
                rnd.shuffle(t)
            if folds > 1:
                cuts = np.array_split(np.arange(n), folds)
                if any(len({t[i] for i in range(n) if i not in c}) < len(combos) for c in cuts):
                    n += 1
                    continue
            self.t = t
            fw = [[rnd.randint(0, fmax) for _ in range(nw)] for _ in range(n)]
            fv = [[rnd.randint(0, fmax) for _ in range(nv)] for _ in range(n)]
            if classes:
                y = [[rnd.randrange(classes)] for _ in range(n)]
                ok = all({y[i][0] for i in range(n) if t[i] == c} == set(range(classes)) for c in combos)
                if not ok:
                    n += 1 if rnd.random() < .3 else 0
                    continue
            else:
                y = [[rnd.randint(-ymax, ymax) for _ in range(self.D)] for _ in range(n)]
            break
        self.n, self.y, self.fw, self.fv = n, y, fw, fv
        self.ylab = sorted(rnd.choice([['no', 'yes', 'maybe'], [0, 1, 2], [3, 1, 7]][1 if numeric else 0:])[:classes]) if classes else None
        self.x = [[rnd.randint(-2, 3) for _ in range(nt)] if cont else [] for _ in range(n)]
        d = {}
        for j, c in enumerate(self.W):
            d[c] = [r[j] for r in fw]
        for j, c in enumerate(self.V):
            d[c] = [r[j] for r in fv]
        for j, c in enumerate(self.T):
            d[c] = [r[j] for r in self.x] if cont else [self.labels[j][r[j]] for r in t]
        for j, c in enumerate(self.Y):
            d[c] = [self.ylab[r[j]] if classes else r[j] for r in y]
        d[prefix + 'other'] = [rnd.randint(0, 9) for _ in range(n)]
        self.data = self.dress(pd.DataFrame(d))

    def dress(self, df):
        rnd = self.rnd
        cols = list(df.columns)
        rnd.shuffle(cols)
        df = df[cols].copy()
        x = rnd.random()
        if x < .3:
            df.index = rnd.sample(range(100, 200 if len(df) <= 100 else 1000), len(df))
        elif x < .45:
            df.index = [7] * len(df)
        elif x < .6:
            df.index = [f'r{i}' for i in range(len(df))][::-1]
        return df

    def rows(self, labels=False):
        return [dict(f=self.fw[i] + self.fv[i], t=list(self.t[i]), y=[self.ylab[c] for c in self.y[i]] if labels else self.y[i])
                for i in range(self.n)]

    def rows_vx(self):
        return [dict(f=self.fw[i] + self.fv[i], v=self.fv[i], t=list(self.t[i]), x=self.x[i], y=self.y[i]) for i in range(self.n)]

    def test(self, n, fmax=1):
        """a test frame and its features"""
        rnd = self.rnd
        f = [[rnd.randint(0, fmax + (rnd.random() < .2)) for _ in self.W + self.V] for _ in range(n)]
        df = pd.DataFrame({c: [r[j] for r in f] for j, c in enumerate(self.W + self.V)})
        df['zzz'] = 'extra'
        return self.dress(df), f

    def spell(self, names):
        """a list of columns as users write it"""
        if not names:
            return None
        return names[0] if len(names) == 1 and self.rnd.random() < .5 else list(names)

    def label(self, code, form=None):
        """a treatment as users write it"""
        v = [self.labels[j][c] for j, c in enumerate(code)]
        if self.nt == 1 and (form or self.rnd.choice(['scalar', 'list'])) == 'scalar':
            return v[0]
        return tuple(v) if self.rnd.random() < .3 else v

    def roles(self):
        return dict(outcome=self.spell(self.Y), treatment=self.spell(self.T), adjustment=self.spell(self.W), covariate=self.spell(self.V))


def cube(r, shape, unit):
    """an array of the wanted size as nested lists of integers"""
    a = np.asarray(r, dtype=float)
    if a.size != int(np.prod(shape)):
        return []
    return [[[exact(x, unit) for x in b] for b in c] for c in a.reshape(shape)]


def same(a, b):
    return bool(list(a.columns) == list(b.columns) and a.index.equals(b.index) and a.equals(b) and (a.dtypes == b.dtypes).all())

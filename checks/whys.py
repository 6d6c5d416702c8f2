"""random studies put to the all-in-one interface, shared by C17 and C18"""
from estimators import *

WORDS = [['lo', 'mid', 'no'], ['a', 'b', 'c'], ['1', '2', '3'], ['A', 'a', 'b']]


class Asked(Study):
    """a study whose columns have several types, seen by Why as columns 1..m: adjustments, covariates, the price, treatments"""

    def __init__(self, rnd, **kw):
        super().__init__(rnd, D=1, ymax=3, **kw)
        self.cont = kw.get('cont', False)
        df = self.data
        self.F = self.W + self.V  # columns with a code
        self.words = {}
        for j, c in enumerate(self.F):
            seen = sorted({(self.fw[i] + self.fv[i])[j] for i in range(self.n)})
            x = rnd.random()
            if seen == [0, 1] and x < .35:
                w = rnd.choice(WORDS)
                self.words[c] = w
                df[c] = [w[v] for v in df[c]]
            elif seen == [0, 1] and x < .5:
                self.words[c] = [False, True]
                df[c] = df[c].astype(bool)
            elif x < .65:
                df[c] = df[c].astype(float)
        if self.cont and rnd.random() < .5:
            for c in self.T:
                df[c] = df[c].astype(float)
        self.price = next(c for c in df.columns if c.endswith('other'))
        self.columns = self.F + [self.price] + self.T + self.Y
        self.num = {c: j + 1 for j, c in enumerate(self.columns)}
        self.data = df

    def rows_of(self):
        p = dict(zip(range(self.n), self.data[self.price].tolist()))
        return [dict(f=self.fw[i] + self.fv[i] + [p[i]], t=list(self.t[i]), x=self.x[i], y=self.y[i], p=p[i]) for i in range(self.n)]

    def tests(self, n):
        """a test frame with everything known about its individuals"""
        rnd = self.rnd
        out = []
        for i in range(n):
            f = [rnd.randint(0, 2 if rnd.random() < .2 and self.words.get(c) != [False, True] else 1) for c in self.F]
            p = rnd.randint(0, 5)
            out.append(dict(f=f + [p], t=list(rnd.choice(self.combos)), x=[rnd.randint(-2, 3) for _ in self.T] if self.cont else [],
                            y=[rnd.randrange(self.classes) if self.classes else rnd.randint(-3, 3)], p=p))
        d = {c: [self.words[c][r['f'][j]] if c in self.words else r['f'][j] for r in out] for j, c in enumerate(self.F)}
        d[self.price] = [r['p'] for r in out]
        for j, c in enumerate(self.T):
            d[c] = [r['x'][j] if self.cont else self.labels[j][r['t'][j]] for r in out]
        d[self.Y[0]] = [self.ylab[r['y'][0]] if self.classes else r['y'][0] for r in out]
        d['zzz'] = 'extra'
        df = pd.DataFrame(d)
        for c, w in self.words.items():
            if w == [False, True]:
                df[c] = df[c].astype(bool)
        return self.dress(df), out


class Named:
    pass


def identifier(found):
    """an identifier which always says the same"""
    from ylearn.api._identifier import Identifier

    class Fixed(Identifier):
        def identify_treatment(self, data, outcome, discrete_treatment, count_limit, excludes=None):
            return list(found['t'])

        def identify_aci(self, data, outcome, treatment):
            return [list(found[k]) if found[k] else None for k in 'wvz']
    return Fixed()


def cost(effect_name, price):
    return lambda row: 2 * row[effect_name] - row[price]


def asked(rnd):
    """a study and the Why fitted on it with exactly computable models, or the reason why it is not fitted"""
    from ylearn import Why
    from ylearn.estimator_model import DoubleML, PermutedTLearner
    discrete = rnd.random() < .7
    proba = discrete and rnd.random() < .35
    s = Asked(rnd, cont=not discrete, classes=rnd.choice([2, 2, 3]) if proba else 0, per_arm=2, v=rnd.choice([1, 1, 2]), w=rnd.choice([0, 0, 1]),
              prefix=rnd.choice(['', 'p_']))
    order = rnd.sample(range(s.nt), s.nt)
    s.T = [s.T[j] for j in order]  # the user's order
    if discrete:
        s.labels = [s.labels[j] for j in order]
        s.t = [tuple(c[j] for j in order) for c in s.t]
        s.combos = sorted({tuple(c[j] for j in order) for c in s.combos})
    s.x = [[r[j] for j in order] for r in s.x] if not discrete else s.x
    s.discrete, s.proba = discrete, proba
    kw = {}
    s.cost = rnd.random() < .3
    if s.cost:
        kw['fn_cost'] = cost('effect', s.price)
        if rnd.random() < .5:
            name = rnd.choice(['gain', 'effect', 'e'])
            kw.update(fn_cost=cost(name, s.price), effect_name=name)
    est = PermutedTLearner(Prob() if proba else Sum(), is_discrete_outcome=proba) if discrete else DoubleML(Sum(), Sum(), Cross())
    s.why = Why(discrete_outcome=proba, discrete_treatment=discrete, estimator=est, **kw)
    if discrete and rnd.random() < .2:  # nothing but adjustments
        s.W, s.V = s.W + s.V, []
    roles = dict(treatment=s.spell(s.T))
    if s.V:
        roles['covariate'] = s.spell(s.V)
    if s.W:
        roles['adjustment'] = s.spell(s.W)
    keep = s.data.copy()
    ok, r = attempt(s.why.fit, s.data, s.Y[0], **roles)
    s.broken = '' if ok else r
    s.kept = same(keep, s.data)
    return s


def base(s, cost=True, target=0):
    return dict(discrete=s.discrete, nt=s.nt, mode='proba' if s.proba else 'reg', target=target or (s.classes if s.proba else 1), scale=8 if s.proba else 1,
                w=[s.num[c] for c in s.W], v=[s.num[c] for c in s.V], cost=bool(cost and s.cost), rows=s.rows_of())


def some(s, n_max=None):
    """treatments a question is about: their positions, and how the user says it"""
    k = s.rnd.randint(1, min(s.nt, n_max or s.nt))
    pos = s.rnd.sample(range(s.nt), k)
    if s.rnd.random() < .4:
        return [], None
    names = [s.T[j] for j in pos]
    return [j + 1 for j in pos], s.spell(names)


def words(s, pos, codes):
    """labels of the treatments at these positions, as users write them"""
    v = [s.labels[j - 1][c] for j, c in zip(pos, codes)]
    if len(v) == 1 and s.rnd.random() < .5:
        return v[0]
    return tuple(v) if s.rnd.random() < .3 else v

"""C23: the tree which explains effects"""
from trees import *

NUM = r'(-?[0-9.]+(?:[eE][-+]?[0-9]+)?|-?inf|nan)'


def given(*args):
    from ylearn.estimator_model.base_models import BaseEstModel

    class Given(BaseEstModel):
        """an estimator which knows the effects of every individual, per unit of treat - control"""

        def __init__(self, covariate, table, shape, transformer=None, unit=1):
            self.covariate, self.table, self.shape, self.unit = covariate, table, shape, unit
            if transformer is not None:
                self.covariate_transformer = transformer
            self.is_discrete_treatment = True
            self._is_fitted = True
            self.treatment, self.outcome = 'treat', 'y'

        def fit(self, *a, **k):
            return self

        def estimate(self, data=None, quantity=None, treat=1, control=0, **k):
            r = np.array([self.table[i] for i in data['id']], dtype=float) * (treat - control) / self.unit
            return r.mean(axis=0) if quantity is not None else r.reshape(self.shape)

    return Given(*args)


def draw(rnd):
    """rows, limits and options"""
    n = rnd.choice([2, 3, 4, 5, 6, 7, 8, 9, 10])
    nf = rnd.choice([1, 1, 2, 2, 3])
    k = rnd.choice([1, 1, 1, 2, 3])
    lev = rnd.choice([1, 2, 3, 5])
    rows = [dict(x=[2 * rnd.randint(0, lev) for _ in range(nf)], e=[rnd.randint(-3, 3) for _ in range(k)]) for _ in range(n)]
    if rnd.random() < .3:  # something to find
        for r in rows:
            r['e'] = [(-1 if r['x'][0] > lev else 1) * (j + 1) + (rnd.randint(-1, 1) if j else 0) for j in range(k)]
    lim, kw = limits(rnd, n)
    if rnd.random() < .35:
        kw['max_leaf_nodes'] = lim['leaves'] = rnd.randint(2, 5)
    if rnd.random() < .2:
        q = rnd.randint(1, 4)
        kw['min_weight_fraction_leaf'], lim['weight'] = q / 16, [q, 16]
    how, x = 'best', rnd.random()
    if x < .08:
        kw['splitter'], how = 'random', 'any'
    elif x < .16 and nf > 1:
        kw['max_features'], how = rnd.choice([1, 'sqrt', .5]), 'feature'
    elif x < .22:
        kw['criterion'], how = 'friedman_mse', 'any'
    elif x < .3:
        kw['criterion'] = 'squared_error'
    if rnd.random() < .2 and kw.get('criterion') != 'friedman_mse':
        q = rnd.choice([1, 2, 4, 8])
        kw['min_impurity_decrease'], lim['decrease'] = q / 4, [q, 4]
    if rnd.random() < .5:
        kw['random_state'] = rnd.choice([0, 1, 7])
    return rows, lim, kw, how


def study(seed):
    from ylearn.effect_interpreter.ce_interpreter import CEInterpreter
    rnd = random.Random(seed)
    evs, obj = [], None
    for turn in range(rnd.choice([1, 1, 2])):
        rows, lim, kw, how = draw(rnd)
        if obj is None:
            keepkw = kw, lim, how
            obj = CEInterpreter(**kw)
        else:  # the same object again, other data
            kw, lim0, how = keepkw
            n = len(rows)
            lim = dict(lim0)
            for a in ('leaf', 'split'):
                v = kw.get('min_samples_' + a)
                if isinstance(v, float):
                    lim[a] = max(2 if a == 'split' else 1, math.ceil(v * n))
        n, nf, K = len(rows), len(rows[0]['x']), len(rows[0]['e'])
        names = rnd.choice([['v1', 'v2', 'v3'], ['b', 'a', 'c'], ['x 1', 'x0', 'x']])[:nf]
        trans = rnd.random() < .35
        cols = [(c, 0, 1) if trans else (c, rnd.choice([0, 0, -3, 100]), rnd.choice([1, .5, 10])) for c in names]
        s = dict(cols=cols)
        df = frame(rnd, s, [r['x'] for r in rows])
        df['id'] = range(n)
        df = dress(rnd, df)
        cov = names[0] if nf == 1 and rnd.random() < .5 else list(names)
        fit, unit = {}, 1
        if rnd.random() < .4:
            t, c = rnd.choice([(1, 0), (2, 0), (0, 1), (3, 1)])
            fit, unit = dict(treat=t, control=c), t - c
            if rnd.random() < .5:
                unit = 1
                for r in rows:
                    r['e'] = [v * (t - c) for v in r['e']]
                    r['_e'] = [v // (t - c) for v in r['e']]
        table = [r.pop('_e', r['e']) for r in rows]
        shape = rnd.choice([(n, K), (n, 1, K), (n, K, 1)] + [(n,)] * (2 if K == 1 else 0))
        More_ = None
        if trans:
            More_ = More()
            More_.fit(df[names].values)
            for r in rows:
                r['x'] = r['x'] + [2 * v + 2 for v in r['x']]
            cols = cols + [(None, 0, 1)] * nf
        est = given(cov, table, shape, More_, unit)
        before = df.copy()
        base = dict(k='explain', rows=rows, lim=lim, how=how, _tag=f'{seed}/{turn}', tree=[], asks=[],
                    _class=f"{K} effects {len(shape)}d{' transformed' if trans else ''}{'' if how == 'best' else ' ' + how}"
                           f"{' leaves' if lim['leaves'] else ''}{' treat' if fit else ''}{' again' if turn else ''}")
        ok, r = attempt(obj.fit, df, est, **fit)
        if not ok:
            evs.append(dict(base, raised=r, kept=same(before, df)))
            break
        tests = [[rnd.randint(-1, 9) for _ in names] for _ in range(rnd.randint(1, 4))]
        tdf = dress(rnd, frame(rnd, s, tests))
        if trans:
            tests = [x + [2 * v + 2 for v in x] for x in tests]
        try:
            T, asks = read(rnd, obj, names, cols, K, df, [r['x'] for r in rows], tdf, tests, More_)
            ev = dict(base, raised='', tree=T, asks=asks)
        except Exception as x:
            if os.environ.get('VP_DEBUG'):
                raise
            ev = dict(base, raised=type(x).__name__ + ' ' + str(x)[:60])
        evs.append(dict(ev, kept=same(before, df)))
    return evs


def read(rnd, obj, names, cols, K, df, own, tdf, tests, more):
    def said(n, **kw):
        r = obj.interpret(**kw)
        assert list(r) == [f'sample_{i}' for i in range(n)]
        out = []
        for i in range(n):
            conds = []
            for ln in r[f'sample_{i}'].split('\n'):
                if not ln.strip():
                    continue
                m = re.match(r'decision node (\d+): \(covariate \[(\d+), (\d+)\] = ' + NUM + r'\) (<=|>) ' + NUM + r' *$', ln)
                assert m and int(m[2]) == i, ln
                f = int(m[3])
                conds.append(dict(k=int(m[1]) + 1, f=f + 1, x=code(float(m[4]), *cols[f][1:]), le=m[5] == '<=', thr=code(float(m[6]), *cols[f][1:])))
            out.append(conds)
        return out

    def told(data, n, training):
        way = rnd.choice(['data', 'data', 'v'] + ['own', 'own'] * training)
        if way == 'own':
            return said(n)
        if way == 'v':
            v = data[names].values
            return said(n, v=more.transform(v) if more else v[:, 0] if len(names) == 1 and rnd.random() < .5 else v)
        return said(n, data=data)

    first = said(len(own))
    pred = matrix(obj.predict(df), len(own), K)
    inner = sorted({c['k'] for conds in first for c in conds})
    leaf = lambda i: dict(l=0, r=0, f=0, thr=0, val=[sc(v) for v in pred[i]], var=[])
    T, leaves = [None], {}
    if inner:
        top = max(inner)
        T = [dict(l=0, r=0, f=0, thr=0, val=[], var=[]) for _ in range(top)]
        for k in inner:
            d = obj.node_dict_[k - 1]
            T[k - 1].update(val=[sc(v) for v in np.ravel(d['mean'])], var=[sc(v * v) for v in np.ravel(d['std'])])
        gaps = [g for g in range(1, top + 1) if g not in inner]
        for i, conds in enumerate(first):
            for j, c in enumerate(conds):
                t = T[c['k'] - 1]
                t.update(f=c['f'], thr=c['thr'])
                side = 'l' if c['le'] else 'r'
                if j + 1 < len(conds):
                    t[side] = conds[j + 1]['k']
                    continue
                if (c['k'], side) not in leaves:
                    if gaps:
                        leaves[c['k'], side] = gaps.pop(0)
                    else:
                        T.append({})
                        leaves[c['k'], side] = len(T)
                    T[leaves[c['k'], side] - 1] = leaf(i)
                t[side] = leaves[c['k'], side]
    else:
        T = [leaf(0)]
    asks = []
    for data, xs, training in ((df, own, True), (tdf, tests, False)):
        n = len(xs)
        t = told(data, n, training)
        arg = data[names].values if rnd.random() < .3 else data
        eff = matrix(getattr(obj, rnd.choice(['predict', 'predict', 'decide']))(arg), n, K)
        for i in range(n):
            asks.append(dict(x=xs[i], eff=[sc(v) for v in eff[i]], told=True, conds=t[i]))
    return T, asks


def corrupt(e):
    if e['raised'] or not e['asks']:
        return None
    e['asks'][-1]['eff'][0] += 300
    return e


def run():
    c = Check('C23', ['samples of up to 10 rows; with random splits, random features or the Friedman criterion only the limits and the values are judged'])
    c.model('MC_Interpret', 'MC_Interpret4.cfg' if thorough() else None)
    n = 10000 if thorough() else 1500
    evs = [e for l in pmap(study, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Interpret', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

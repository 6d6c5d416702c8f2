"""C14: policy trees and the policy interpreter"""
from trees import *

NUM = r'(-?[0-9.]+(?:[eE][-+]?[0-9]+)?|-?inf|nan)'


def given(*args):
    from ylearn.estimator_model.base_models import BaseEstModel

    class Given(BaseEstModel):
        """an estimator which knows the effects of every individual"""

        def __init__(self, covariate, table, transformer=None):
            self.covariate, self.table, self.covariate_transformer = covariate, table, transformer
            self.is_discrete_treatment = True
            self._is_fitted = True
            self.treatment, self.outcome = 'treat', 'y'

        def fit(self, *a, **k):
            return self

        def estimate(self, data=None, quantity=None, **k):
            return self.effect_nji(data)

        def effect_nji(self, data=None, **k):
            return np.array([self.table[i] for i in data['id']], dtype=float)[:, None, :]

    return Given(*args)


def draw(rnd):
    """rows, limits and options"""
    n = rnd.choice([3, 4, 5, 6, 7, 8, 9, 10, 12])
    nf = rnd.choice([1, 1, 2, 2, 3])
    k = rnd.choice([2, 2, 3, 4])
    lev = rnd.choice([1, 2, 3, 5])
    rows = [dict(x=[2 * rnd.randint(0, lev) for _ in range(nf)], e=[rnd.randint(-3, 3) for _ in range(k)], w=1) for _ in range(n)]
    if rnd.random() < .4:
        for r in rows:
            r['e'][0] = 0
    if rnd.random() < .3:  # something to find
        for r in rows:
            r['e'] = [(-1 if r['x'][0] > lev else 1) * (j + 1) + (rnd.randint(-1, 1) if j else 0) for j in range(k)]
    lim, kw = limits(rnd, n)
    if rnd.random() < .35:
        kw['max_leaf_nodes'] = lim['leaves'] = rnd.randint(2, 6)
    if rnd.random() < .2:
        q = rnd.randint(1, 4)
        kw['min_weight_fraction_leaf'], lim['weight'] = q / 16, [q, 16]
    if rnd.random() < .2:
        q = rnd.choice([1, 2, 4, 8])
        kw['min_impurity_decrease'], lim['decrease'] = q / 4, [q, 4]
    how = 'best'
    x = rnd.random()
    if x < .08:
        kw['splitter'], how = 'random', 'any'
    elif x < .16 and nf > 1:
        kw['max_features'], how = rnd.choice([1, 'sqrt', .5]), 'feature'
    if rnd.random() < .5:
        kw['random_state'] = rnd.choice([0, 1, 7])
    return rows, lim, kw, how


def study(seed):
    from ylearn.policy.policy_model import PolicyTree
    from ylearn.effect_interpreter.policy_interpreter import PolicyInterpreter
    rnd = random.Random(seed)
    evs = []
    interp = rnd.random() < .3
    obj = None
    for turn in range(rnd.choice([1, 1, 2])):
        rows, lim, kw, how = draw(rnd)
        if obj is None:
            keepkw = kw, lim, how
        else:  # the same object again, other data
            kw, lim0, how = keepkw
            n = len(rows)
            lim = dict(lim0)
            for a in ('leaf', 'split'):
                v = kw.get('min_samples_' + a)
                if isinstance(v, float):
                    lim[a] = max(2 if a == 'split' else 1, math.ceil(v * n))
            if len(rows[0]['x']) == 1 and how == 'feature':
                how = 'best'
        n, nf, K = len(rows), len(rows[0]['x']), len(rows[0]['e'])
        names = rnd.choice([['v1', 'v2', 'v3'], ['b', 'a', 'c'], ['x 1', 'x0', 'x']])[:nf]
        way = rnd.choice(['columns', 'array', 'model', 'model'] if not interp else ['columns', 'array', 'model', 'model', 'model'])
        trans = way == 'model' and rnd.random() < .4
        cols = [(c, 0, 1) if trans else (c, rnd.choice([0, 0, -3, 100]), rnd.choice([1, .5, 10])) for c in names]
        s = dict(cols=cols)
        weights = None
        if not interp and rnd.random() < .25:
            weights = [rnd.randint(1, 3) for _ in rows]
            for r, w in zip(rows, weights):
                r['w'] = w
        df = frame(rnd, s, [r['x'] for r in rows])
        df['id'] = range(n)
        eff = ['eff%d' % j for j in rnd.sample(range(9), K)]
        for j, c in enumerate(eff):
            df[c] = [float(r['e'][j]) if rnd.random() < 2 else 0 for r in rows]
            if rnd.random() < .5:
                df[c] = df[c].astype(int)
        df = dress(rnd, df)
        cov = names[0] if nf == 1 and rnd.random() < .5 else list(names)
        fit = {}
        xs = [list(r['x']) for r in rows]
        More_ = More() if trans else None
        if trans:
            More_.fit(df[names].values)
            for r in rows:
                r['x'] = r['x'] + [2 * v + 2 for v in r['x']]
            cols = cols + [(None, 0, 1)] * nf
        if way == 'columns':
            fit['effect'] = eff
        elif way == 'array':
            fit['effect_array'] = np.array([r['e'] for r in rows], dtype=rnd.choice([float, int]))
        est = given(cov, [r['e'] for r in rows], More_)
        if way == 'model' or interp:
            fit['est_model'] = est
        if weights:
            fit['sample_weight'] = np.array(weights, dtype=float)
        if way == 'model' and isinstance(cov, list):  # the covariates of the estimator count
            cov = rnd.sample(cov, len(cov))
        before = df.copy()
        tn = None
        base = dict(k='tree', rows=rows, lim=lim, how=how, deep=not interp, _tag=f'{seed}/{turn}', depth=0, leaves=0, imp=[], tree=[], asks=[],
                    _class=f"{'interpreter ' if interp else ''}{way}{' transformed' if trans else ''}{'' if how == 'best' else ' ' + how}"
                           f"{' leaves' if lim['leaves'] else ''}{' weights' if weights else ''}")
        if interp:
            obj = obj or PolicyInterpreter(**kw)
            tn = rnd.choice([None, [f'T{j}' for j in range(K)][::-1], list(range(10, 10 + K))])
            ok, r = attempt(obj.fit, df, covariate=rnd.choice([None, cov]), treatment_names=tn, **fit)
        else:
            obj = obj or PolicyTree(**kw)
            ok, r = attempt(obj.fit, df, cov, **fit)
        if not ok:
            evs.append(dict(base, raised=r, kept=same(before, df)))
            break
        # new individuals, some exactly between two values
        tests = [[rnd.randint(-1, 9) for _ in names] for _ in range(rnd.randint(1, 4))]
        tdf = dress(rnd, frame(rnd, s, tests))
        if trans:
            tests = [x + [2 * v + 2 for v in x] for x in tests]
        own = [r['x'] for r in rows]
        try:
            T, asks = (read_interp if interp else read_tree)(rnd, obj, cols, K, df, own, tdf, tests, tn)
            ev = dict(base, raised='', tree=T, asks=asks)
            if not interp:
                ev.update(depth=int(obj.get_depth()), leaves=int(obj.get_n_leaves()), imp=[sc(v) for v in obj.feature_importance])
        except Exception as x:
            ev = dict(base, raised=type(x).__name__ + ' ' + str(x)[:60])
        evs.append(dict(ev, kept=same(before, df)))
    return evs


def read_tree(rnd, obj, cols, K, df, own, tdf, tests, tn):
    T = nodes(obj.tree_, cols)
    asks = []
    for data, xs in ((df, own), (tdf, tests), (None, own)):
        if rnd.random() < .3:
            continue
        n = len(xs)
        leaf = np.asarray(obj.apply(data=data)).reshape(-1)
        paths = obj.decision_path(data=data)
        ind = np.asarray(obj.predict_ind(data)).reshape(-1)
        eff = matrix(obj.predict_opt_effect(data), n, K)
        for i in range(n):
            asks.append(ask(xs[i], leaf=int(leaf[i]) + 1, path=sorted(int(j) + 1 for j in paths[i].nonzero()[1]), eff=[sc(v) for v in eff[i]], ind=int(ind[i]) + 1))
    return T, asks


def read_interp(rnd, obj, cols, K, df, own, tdf, tests, tn):
    def said(data, n):
        r = obj.interpret(data)
        out = []
        for i in range(n):
            lines = r[f'sample_{i}'].split('\n')
            conds = []
            for ln in lines[:-1]:
                m = re.match(r'decision node (\d+): \(covariate \[(\d+), (\d+)\] = ' + NUM + r'\) (<=|>) ' + NUM + r' *$', ln)
                assert m and int(m[2]) == i, ln
                f = int(m[3])
                conds.append(dict(k=int(m[1]) + 1, f=f + 1, x=code(float(m[4]), *cols[f][1:]), le=m[5] == '<=', thr=code(float(m[6]), *cols[f][1:])))
            m = re.match(r'The recommended policy is treatment (\d+) with value ' + NUM, lines[-1])
            assert m, lines[-1]
            out.append((conds, int(m[1]) + 1, sc(float(m[2]))))
        return out
    told = said(None if rnd.random() < .3 else df, len(own))
    pred = matrix(obj.predict(df), len(own), K)
    nodes, leaves, T = {}, {}, [None]
    inner = sorted({c['k'] for conds, _, _ in told for c in conds})
    if inner:
        top = max(inner)
        T = [dict(l=0, r=0, f=0, thr=0, val=[], n=0, w=0) for _ in range(top)]
    for i, (conds, _, _) in enumerate(told):
        for j, c in enumerate(conds):
            t = T[c['k'] - 1]
            t.update(f=c['f'], thr=c['thr'])
            side = 'l' if c['le'] else 'r'
            if j + 1 < len(conds):
                t[side] = conds[j + 1]['k']
            else:
                if (c['k'], side) not in leaves:
                    gaps = [g for g in range(top) if g + 1 not in inner and g + 1 not in leaves.values()]
                    if gaps:
                        leaves[c['k'], side] = gaps[0] + 1
                    else:
                        T.append(dict(l=0, r=0, f=0, thr=0, val=[], n=0, w=0))
                        leaves[c['k'], side] = len(T)
                t[side] = leaves[c['k'], side]
                T[t[side] - 1]['val'] = [sc(v) for v in pred[i]]
    if not inner:
        T = [dict(l=0, r=0, f=0, thr=0, n=0, w=0, val=[sc(v) for v in pred[0]])]
    asks = []
    for data, xs in ((df, own), (tdf, tests)):
        n = len(xs)
        t = said(data, n)
        dec = [int(d) if tn is None else [str(x) for x in tn].index(str(d)) for d in np.asarray(obj.decide(data)).reshape(-1)]
        eff = matrix(obj.predict(data), n, K)
        for i in range(n):
            asks.append(ask(xs[i], eff=[sc(v) for v in eff[i]], ind=dec[i] + 1, conds=t[i][0], rec=t[i][1], val=t[i][2]))
    return T, asks


def corrupt(e):
    if e['raised'] or not e['asks']:
        return None
    a = e['asks'][-1]
    a['eff'][0] += 300
    return e


def run():
    c = Check('C14', ['samples of up to 12 rows; with random splits or features only the limits and the values are judged'])
    c.model('MC_Policy', 'MC_Policy5.cfg' if thorough() else None)
    n = 12000 if thorough() else 1000
    evs = [e for l in pmap(study, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Policy', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

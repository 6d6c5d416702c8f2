"""C10: double machine learning"""
from estimators import *


def study(seed):
    from ylearn.estimator_model.double_ml import DoubleML
    rnd = random.Random(seed)
    evs = []
    discrete = rnd.random() < .5
    proba = rnd.random() < .25
    fold = rnd.choice([1, 1, 2, 3, 4, 5])
    more = rnd.random() < .3
    kw = dict(is_discrete_treatment=discrete, is_discrete_outcome=proba, proba_output=proba, cf_fold=fold)
    if more:
        kw['covariate_transformer'] = More()
    if rnd.random() < .3:
        kw['adjustment_transformer'] = More()
    est = DoubleML(Prob() if discrete else Sum(), Prob() if proba else Sum(), Cross(), **kw)
    for turn in range(rnd.choice([1, 1, 2])):
        while True:
            s = Study(rnd, classes=rnd.choice([2, 2, 3]) if proba else 0, cont=not discrete, v=rnd.choice([1, 1, 2]), per_arm=3 if fold > 1 else 2,
                      ymax=2, folds=fold if discrete else 1, prefix=rnd.choice(['', 'p_']))
            if fold == 1 or not proba:
                break
            cuts = np.array_split(np.arange(s.n), fold)
            if all(len({s.y[i][0] for i in range(s.n) if i not in c}) == s.classes for c in cuts):
                break
        A = len(s.combos)
        before = s.data.copy()
        fit_t = rnd.choice(s.combos) if discrete and rnd.random() < .2 else ()
        fkw = dict(treat=s.label(fit_t, 'list')) if fit_t else {}
        ok, r = attempt(est.fit, s.data, **s.roles(), **fkw)
        base = dict(discrete=discrete, proba=proba, fold=fold, more=more, D=s.D, rows=s.rows_vx(), _tag=f'{seed}/{turn}',
                    _class=f"{'discrete' if discrete else 'continuous'}{' proba' if proba else ''}{' folds' if fold > 1 else ''}")
        if not ok:
            evs.append(dict(k='dml', form='plain', treat=[], control=[], target=0, diff=[], tests=[], out=[], raised=r, kept=True, **base))
            break
        K = s.classes if proba else s.D
        for _ in range(rnd.choice([1, 2, 3])):
            own = rnd.random() < .25
            n = s.n if own else rnd.randint(1, 4)
            df, f = (None, [a + b for a, b in zip(s.fw, s.fv)]) if own else s.test(n)
            keep = None if df is None else df.copy()
            form = rnd.choice(['plain', 'plain', 'nji', 'mean'])
            target = rnd.randint(1, K) if proba and form != 'nji' and rnd.random() < .6 else 0
            t = c = ()
            diff = []
            q = {}
            if discrete:
                if form != 'nji' and rnd.random() < .6:
                    t = rnd.choice(s.combos)
                    q['treat'] = s.label(t)
                if rnd.random() < .6:
                    c = rnd.choice(s.combos)
                    q['control'] = s.label(c)
                if not t:
                    t = fit_t
            elif form != 'nji':
                def number(default):
                    x = rnd.random()
                    if x < .4:
                        return None, [[default] * s.nt] * n
                    if x < .6:
                        a = rnd.randint(-1, 2)
                        return rnd.choice([a, float(a)]), [[a] * s.nt] * n
                    if x < .8:
                        a = [rnd.randint(-1, 2) for _ in range(s.nt)]
                        return np.array(a) if s.nt > 1 or rnd.random() < .5 else a[0], [a] * n
                    a = [[rnd.randint(-1, 2) for _ in range(s.nt)] for _ in range(n)]
                    m = np.array(a)
                    if s.nt == 1:
                        m = rnd.choice([m, m[:, 0], pd.Series(m[:, 0], index=range(5, 5 + n))])
                    return m, a
                tq, ta = number(1)
                cq, ca = number(0)
                if tq is not None:
                    q['treat'] = tq
                if cq is not None:
                    q['control'] = cq
                diff = [[a - b for a, b in zip(x, y)] for x, y in zip(ta, ca)]
            if target:
                q['target_outcome'] = s.ylab[target - 1]
            if form == 'nji':
                ok, r = attempt(est.effect_nji, df, **q)
            else:
                if form == 'mean':
                    q['quantity'] = rnd.choice(['ATE', 'CATE'])
                ok, r = attempt(est.estimate, df, **q)
            unit = (8 if discrete else 1) * (8 if proba else 1)
            k = 1 if target else K
            a = A if form == 'nji' else 1
            if not discrete:
                a = s.nt
            out = []
            if ok:
                try:
                    out = cube(r, (1, k, a), unit * n) if form == 'mean' else cube(r, (n, k, a), unit)
                except Exception as x:
                    ok, r = False, type(x).__name__
            kept = same(before, s.data) and (df is None or same(df, keep))
            evs.append(dict(k='dml', form=form, treat=list(t), control=list(c), target=target, diff=diff, tests=[x[len(s.W):] for x in f], out=out,
                            raised='' if ok else r, kept=kept, **base))
    return evs


def corrupt(e):
    if e['raised'] or not e['out']:
        return None
    e['out'][0][0][0] += 1
    return e


def run():
    c = Check('C10', ['the plugged-in models are exact stand-ins, the last stage a linear model with coefficients X\'y'])
    c.model('MC_DoubleML', 'MC_DoubleML_big.cfg' if thorough() else None)
    n = 4000 if thorough() else 700
    evs = [e for l in pmap(study, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Study', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

"""C09: answers depend on the last fit and the question only"""
import random
import zlib

import numpy as np
import pandas as pd

from vp import *

N = {'A': 48, 'B': 60}


NUMERIC = ('CTForest', 'GRF', 'GRF continuous', 'GRF honest')


def data(name, kind, variant):
    """two data sets which differ in names, sizes, numbers of columns, labels and numbers of treatments"""
    rng = np.random.default_rng(zlib.crc32(f'{name}{variant}'.encode()))
    n = N[name]
    p = '' if name == 'A' else 'b_'
    d = pd.DataFrame({p + 'w1': rng.normal(size=n).round(3), p + 'v1': rng.integers(0, 4, n).astype(float), p + 'z': rng.normal(size=n).round(3)})
    W, V, Z = [p + 'w1'], [p + 'v1'], [p + 'z']
    if name == 'B':
        d[p + 'w2'] = rng.normal(size=n).round(3)
        d[p + 'v2'] = rng.integers(0, 3, n).astype(float)
        W.append(p + 'w2')
        V.append(p + 'v2')
    code = np.r_[np.arange(3 if name == 'A' else 2), rng.integers(0, 3 if name == 'A' else 2, n)][:n]
    rng.shuffle(code)
    lab = dict(A=np.array(['lo', 'mid', 'up']), B=np.array([5, 9]))[name]
    if kind in NUMERIC:
        lab = dict(A=np.array([0, 1, 2]), B=np.array([0, 1]))[name]
    d[p + 't'] = lab[code]
    d[p + 'x'] = (d[p + 'z'] + rng.normal(size=n)).round(3)
    d[p + 'y'] = (code * (1 + d[p + 'v1']) + d[p + 'w1'] + d[p + 'x'] + rng.normal(size=n) * .1).round(3)
    d[p + 'yc'] = np.where(d[p + 'y'] + rng.normal(size=n) > d[p + 'y'].median(), *dict(A=('yes', 'no'), B=(1, 0))[name])
    if name == 'B':
        d = d[d.columns[::-1]]
        d.index = np.arange(n)[::-1] + 3
    test = d.iloc[::3].sample(frac=1, random_state=1).copy()
    return dict(data=d, test=test, W=W, V=V, Z=Z, T=p + 't', X=p + 'x', Y=p + 'y', YC=p + 'yc', lab=sorted(lab.tolist()))


def LR():
    from sklearn.linear_model import LinearRegression
    return LinearRegression()


def LC():
    from sklearn.linear_model import LogisticRegression
    return LogisticRegression(max_iter=200)


class Kind:
    def __init__(self, make, fit, asks):
        self.make, self.fit, self.asks = make, fit, asks


def kinds():
    from ylearn import estimator_model as em
    from ylearn.estimator_model.causal_tree import CausalTree, CTCausalForest
    from ylearn.estimator_model.causal_forest import CausalForest
    from ylearn.estimator_model._generalized_forest._grf import GRForest
    from ylearn.policy.policy_model import PolicyTree
    from ylearn.effect_interpreter.ce_interpreter import CEInterpreter
    from ylearn.effect_interpreter.policy_interpreter import PolicyInterpreter
    from ylearn.uplift import UpliftModel

    def std(o, s, **kw):
        return o.fit(s['data'], s['Y'], s['T'], adjustment=s['W'], covariate=s['V'], **kw)

    def cont(o, s, **kw):
        return o.fit(s['data'], s['Y'], s['X'], adjustment=s['W'], covariate=s['V'], **kw)

    def cls(o, s, **kw):
        return o.fit(s['data'], s['YC'], s['T'], adjustment=s['W'], covariate=s['V'], **kw)
    own = lambda o, s: o.estimate()
    test = lambda o, s: o.estimate(s['test'])
    ate = lambda o, s: o.estimate(s['test'], quantity='ATE')
    nji = lambda o, s: o.effect_nji(s['test'])
    pick = lambda o, s: o.estimate(s['test'], treat=s['lab'][0], control=s['lab'][-1])
    base = [own, test, ate, nji]
    K = {}
    for n in 'STX':
        c = getattr(em, n + 'Learner')
        K[n] = Kind(lambda c=c: c(LR()), std, base)
        K[n + ' separate'] = Kind(lambda c=c: c(LR()), lambda o, s: std(o, s, combined_treatment=False), base)
        K[n + ' proba'] = Kind(lambda c=c, n=n: c(LC(), is_discrete_outcome=True, proba_output=True, **(dict(final_proba_model=LR()) if n == 'X' else {})), cls,
                               base + [lambda o, s: o.estimate(s['test'], target_outcome=o.outcome_classes_[0])])
        p = getattr(em, f'Permuted{n}Learner')
        K['Permuted' + n] = Kind(lambda p=p: p(LR()), lambda o, s: std(o, s, n_jobs=1),
                                 [own, test, pick, lambda o, s: o.effect_nji(s['test'], n_jobs=1), lambda o, s: o.effect_nji(control=s['lab'][-1], n_jobs=1)])
    K['Permuted proba'] = Kind(lambda: em.PermutedTLearner(LC(), is_discrete_outcome=True), lambda o, s: cls(o, s, n_jobs=1), [test, pick])
    K['DML'] = Kind(lambda: em.DoubleML(LC(), LR(), is_discrete_treatment=True), std, base + [pick])
    K['DML folds'] = Kind(lambda: em.DoubleML(LC(), LR(), cf_fold=2, is_discrete_treatment=True), std, base + [pick])
    K['DML continuous'] = Kind(lambda: em.DoubleML(LR(), LR()), cont, base + [lambda o, s: o.estimate(s['test'], treat=3, control=1)])
    K['DML proba'] = Kind(lambda: em.DoubleML(LC(), LC(), is_discrete_treatment=True, is_discrete_outcome=True, proba_output=True), cls, base + [pick])

    def dml_treat(o, s):
        return std(o, s, treat=s['lab'][-1]) if s['T'] == 't' else std(o, s)
    K['DML treat'] = Kind(lambda: em.DoubleML(LC(), LR(), is_discrete_treatment=True), dml_treat, base)
    K['DR'] = Kind(lambda: em.DoublyRobust(LC(), LR(), LR()), std, base + [lambda o, s: o.estimate(s['test'], all_tr_effects=True)])
    K['DR folds'] = Kind(lambda: em.DoublyRobust(LC(), LR(), LR(), cf_fold=2), std, base)
    K['PermutedDR'] = Kind(lambda: em.PermutedDoublyRobust(LC(), LR(), LR()), lambda o, s: std(o, s, n_jobs=1), [own, test, pick])
    K['Bound'] = Kind(lambda: em.ApproxBound(LR(), x_model=LC()), lambda o, s: o.fit(s['data'], s['Y'], s['T'], covariate=s['V']),
                      [own, test, pick, lambda o, s: o.estimate(assump='non-negative')])
    K['Bound none'] = Kind(lambda: em.ApproxBound(LR()), lambda o, s: o.fit(s['data'], s['Y'], s['T']), [own, pick])

    def rloss(o, s):
        return o.fit(s['data'], s['Y'], s['T'], adjustment=s['W'], covariate=s['V'])

    def score(o, s):
        t = em.TLearner(LR())
        std(t, s)
        return o.score(t)
    K['RLoss'] = Kind(lambda: em.RLoss(LC(), LR(), is_discrete_treatment=True), rloss, [score, score])
    for nm, t in (('NP2SLS', 'X'), ('NP2SLS discrete', 'T')):
        K[nm] = Kind(lambda t=t: em.NP2SLS(LR(), LR(), is_discrete_treatment=t == 'T'),
                     lambda o, s, t=t: o.fit(s['data'], s['Y'], s[t], instrument=s['Z'], adjustment=s['W'], covariate=s['V']), [own, test, ate])
    K['NP2SLS discrete'].asks = [pick, lambda o, s: o.estimate(s['data'], treat=s['lab'][1], control=s['lab'][0]),
                                 lambda o, s: o.estimate(s['test'], treat=s['lab'][1], control=s['lab'][0], quantity='ATE')]
    K['NP2SLS effects'] = Kind(lambda: em.NP2SLS(LR(), LR()), lambda o, s: o.fit(s['data'], s['Y'], s['X'], instrument=s['Z'], covariate=s['V']), [nji, test])
    K['Tree'] = Kind(lambda: CausalTree(max_depth=3), std, base + [lambda o, s: o.apply(data=s['test'])])
    K['Tree honest'] = Kind(lambda: CausalTree(max_depth=3, honest_subsample_num=.6), std, base)
    K['Tree features'] = Kind(lambda: CausalTree(max_depth=3, max_features=1, splitter='random'), std, base)
    K['PermutedTree'] = Kind(lambda: em._permuted.PermutedCausalTree(max_depth=2), lambda o, s: std(o, s, n_jobs=1), [own, test, pick])
    K['CTForest'] = Kind(lambda: CTCausalForest(n_estimators=4, max_depth=3, random_state=3), std, [own, test])
    K['GRF'] = Kind(lambda: GRForest(n_estimators=4, max_depth=3, random_state=3), std, [own, test])
    K['GRF continuous'] = Kind(lambda: GRForest(n_estimators=4, max_depth=3, random_state=3, is_discrete_treatment=False), cont, [own, test])
    K['GRF honest'] = Kind(lambda: GRForest(n_estimators=4, max_depth=2, random_state=3, honest_subsample_num=.5, sub_sample_num=.8), std, [own, test])
    K['CausalForest'] = Kind(lambda: CausalForest(LC(), LR(), n_estimators=4, max_depth=3, random_state=3, is_discrete_treatment=True), std, [own, test, nji])
    K['PolicyTree'] = Kind(lambda: PolicyTree(max_depth=2), lambda o, s: o.fit(s['data'], s['V'], effect=[s['X'], s['Y']]),
                           [lambda o, s: o.predict_ind(), lambda o, s: o.predict_ind(s['test']), lambda o, s: o.predict_opt_effect(s['test'])])

    def est(s, cls=em.TLearner):
        return std(cls(LR()), s)
    K['CEInterpreter'] = Kind(lambda: CEInterpreter(max_depth=2), lambda o, s: o.fit(s['data'], est(s)),
                              [lambda o, s: list(map(str, o.interpret(data=s['test']).values())), lambda o, s: list(map(str, o.interpret(data=s['data']).values()))])
    K['PolicyInterpreter'] = Kind(lambda: PolicyInterpreter(max_depth=2), lambda o, s: o.fit(s['data'], est(s)),
                                  [lambda o, s: list(map(str, o.interpret(data=s['test']).values())), lambda o, s: o.predict(s['test'])])

    def uplift(o, s):
        d = s['data'][s['data'][s['T']].isin(s['lab'][:2])]
        return o.fit(pd.DataFrame(dict(m=d[s['X']], n=d[s['W'][0]], out=d[s['Y']], tr=d[s['T']])), outcome='out', treatment='tr', treat=s['lab'][1], control=s['lab'][0])
    K['Uplift'] = Kind(UpliftModel, uplift, [lambda o, s: o.get_qini(normalize=True)[['m', 'n']], lambda o, s: o.get_gain()[['m', 'n']], lambda o, s: o.auuc_score(),
                                         lambda o, s: o.get_cumlift()[['m', 'n']], lambda o, s: o.gain_top_point()])
    return K


KINDS = None


def numbers(r):
    """an answer as a short list of integers"""
    if isinstance(r, (list, tuple)) and r and isinstance(r[0], str):
        return [len(r)] + [zlib.crc32(s.encode()) >> 1 for s in r]
    if isinstance(r, dict):
        r = np.concatenate([np.ravel(np.asarray(v, dtype=float)) for _, v in sorted(r.items(), key=lambda p: str(p[0]))])
    if isinstance(r, (pd.DataFrame, pd.Series)):
        r = r.values
    if isinstance(r, tuple):
        a = np.concatenate([np.ravel(np.asarray(x, dtype=float)) for x in r])
        shape = [len(r)]
    else:
        a = np.asarray(r, dtype=float)
        shape = list(a.shape)
        a = a.ravel()
    w = np.cos(np.arange(len(a)) * 1.7)
    scale = 1e4
    x = list(a[:6]) + [float(np.nansum(a * w)), float(np.nansum(np.abs(a))), float(np.isnan(a).sum())]
    return shape + [BIG if not np.isfinite(v) else int(np.clip(round(v * scale), -2e9, 2e9)) for v in x]


def history(job):
    name, hist, variant, bad = job
    global KINDS
    KINDS = KINDS or kinds()
    kind = KINDS[name]
    rnd = random.Random(variant)
    qs = dict(zip('pq', rnd.sample(range(len(kind.asks)), 2)))
    D = {n: data(n, name, variant % 3) for n in 'AB'}
    keep = {n: (D[n]['data'].copy(), D[n]['test'].copy()) for n in 'AB'}

    def kept():
        return all(D[n][k].equals(keep[n][i]) and list(D[n][k].columns) == list(keep[n][i].columns) and D[n][k].index.equals(keep[n][i].index)
                   for n in 'AB' for i, k in enumerate(('data', 'test')))
    objs = {}
    last = {}
    evs = [dict(k='reset')] + [dict(k='new', cfg=name) for _ in (1, 2)]
    for h in (1, 2):
        objs[h] = kind.make()
        last[h] = None
    # after the history: for every data set asked about, a new object which knows nothing else
    asked = set()
    fresh = []
    now = {}
    for op, h, x in hist:
        if op == 'fit':
            now[h] = x
        elif h in now:
            asked.add((now[h], x))
    for i, d in enumerate(sorted({d for d, _ in asked})):
        fresh += [('new', 3 + i, None), ('fit', 3 + i, d)] + [('ask', 3 + i, q) for dd, q in sorted(asked) if dd == d]
    for op, h, x in list(hist) + fresh:
        if op == 'new':
            evs.append(dict(k='new', cfg=name))
            objs[h] = kind.make()
            last[h] = None
            continue
        o = objs[h]
        if op == 'fit':
            ok, r = attempt(kind.fit, o, D[x])
            evs.append(dict(k='fit', h=h, d=x, raised='' if ok else r, kept=kept()))
            if ok:
                last[h] = x
            if bad and h < 3 and rnd.random() < .25:
                other = dict(D['B' if x == 'A' else 'A'])
                drop = rnd.choice([other['Y'], other['V'][0]])
                other['data'] = other['data'].drop(columns=[drop] + ([other['YC']] if drop == other['Y'] else []))
                ok, r = attempt(kind.fit, o, other)
                evs.append(dict(k='badfit', h=h, raised='' if ok else r, kept=kept()))
        else:
            s = D[last[h] or 'A']
            ok, r = attempt(kind.asks[qs[x]], o, s)
            ans = []
            if ok:
                try:
                    ans = numbers(r)
                except Exception as e:
                    ok, r = False, 'answer: ' + type(e).__name__
            evs.append(dict(k='ask', h=h, q=f'{qs[x]}', raised='' if ok else r, ans=ans, kept=kept(), _class=name))
    for e in evs:
        e['_job'] = [name, variant]
    return evs


def run():
    c = Check('C09', ['small linear, tree and forest models stand for all models; DeepIV is not part of it'])
    c.model('MC_Lifecycle')
    out = c.model('Gen_Lifecycle', workers=1)
    hs = [json.loads(json.loads(ln)[2:]) for ln in out.splitlines() if ln.startswith('"H ')]
    if len(hs) < 500:
        raise Machinery('histories were not generated')
    rnd = random.Random(SEED)
    jobs = []
    for name in sorted(kinds()):
        some = hs if thorough() else rnd.sample(hs, 26)
        if thorough() and name not in ('S', 'T', 'X', 'DML', 'DR', 'Tree', 'PolicyTree', 'NP2SLS', 'Bound'):
            some = rnd.sample(hs, 150)
        for i, h in enumerate(some):
            jobs.append((name, h, rnd.randrange(10 ** 6), i % 4 == 0 and name not in ('RLoss', 'Uplift', 'PolicyTree', 'Bound none')))
    rnd.shuffle(jobs)
    c.judge('Trace_Lifecycle', pmap(history, jobs, chunksize=4), stateful=True)
    c.notes['generated_histories'] = len(hs)
    c.finish()


if __name__ == '__main__':
    main(run)

"""C07: from a learned matrix to a causal graph and the roles of its variables"""
import random

import numpy as np
import pandas as pd

from vp import *

NAMES = [['a', 'b', 'c', 'd', 'e', 'f'], ['x1', 'x', 'y1', 'w', 'x10', 'z'], ['e', 'd', 'c', 'b', 'a', 'q']]


def ints(m):
    return [[int(v) if float(v) == int(v) else BIG for v in r] for r in np.asarray(m).tolist()]


def rand_matrix(rnd, n, acyclic=False, big=4, p=None):
    p = p or rnd.choice([.2, .4, .6, .9])
    order = list(range(n))
    rnd.shuffle(order)
    m = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if rnd.random() < p and (i != j or rnd.random() < .2):
                m[i, j] = rnd.choice([v for v in range(-big, big + 1) if v])
    if acyclic:
        for i in range(n):
            for j in range(n):
                if order[i] >= order[j]:
                    m[i, j] = 0
    return m


def frame(rnd, m, names, df=None):
    if df if df is not None else rnd.random() < .5:
        return pd.DataFrame(m, columns=names, index=names)
    return m


def conversions(seed):
    from ylearn.causal_discovery import BaseDiscovery
    rnd = random.Random(seed)
    evs = []
    n = rnd.randint(2, 6)
    names = rnd.choice(NAMES)[:n]

    def add(k, m, fn, arg, **f):
        before = np.array(arg, copy=True)
        ok, r = attempt(fn, arg)
        ev = dict(k=k, M=ints(m), names=names, raised='' if ok else r, out=[], kept=bool(np.array_equal(before, np.asarray(arg))), **f)
        if ok:
            try:
                ev['out'] = (dict(trim=ints, dict=lambda d: [dict(v=str(a), c=[str(x) for x in b]) for a, b in d.items()],
                                  table=lambda t: [[str(a), str(b), int(c) if float(c) == int(c) else BIG] for a, b, c in t])[k])(r)
            except Exception as x:
                ev['raised'] = type(x).__name__
        evs.append(ev)
    m = rand_matrix(rnd, n, rnd.random() < .2, rnd.choice([2, 4, 9]))
    add('trim', m, BaseDiscovery.trim_cycle, m.copy())
    evs[-1]['_class'] = 'trimmed' if evs[-1]['out'] != evs[-1]['M'] else 'kept'
    for acyclic in (True, False):
        m = rand_matrix(rnd, n, acyclic)
        for depth in (None, 1):
            df = rnd.random() < .5
            arg = frame(rnd, m.copy(), names, df)
            named = not df or rnd.random() < .3
            kw = dict(depth=depth) if depth else {}
            add('dict', m, lambda a: BaseDiscovery.matrix2dict(a, names=names, **kw) if named else BaseDiscovery.matrix2dict(a, **kw), arg, depth=depth or 0)
        df = rnd.random() < .6
        arg = frame(rnd, m.copy(), names, df)
        as_df = rnd.random() < .5

        def table(a):
            if as_df:
                t = BaseDiscovery.matrix2df(a) if df else BaseDiscovery.matrix2df(a, names=names)
                assert t.columns.tolist() == ['from', 'to', 'prob']
                return t.values.tolist()
            return BaseDiscovery.matrix2array(a) if df else BaseDiscovery.matrix2array(a, names=names)
        add('table', m, table, arg)
    return evs


def data_for(rnd, names, y, kinds):
    n = 40
    rng = np.random.default_rng(rnd.randrange(2 ** 31))
    d = {}
    for v, k in zip(names, kinds):
        if k == 'discrete':
            d[v] = rng.choice(['p', 'q', 'r'], n)
        else:
            d[v] = rng.normal(size=n)
    d = pd.DataFrame(d)
    if rnd.random() < .5:
        d.index = rng.permutation(n) + 7
    return d


def with_instruments(rnd):
    """two treatments, candidates for instruments of one or both, a common cause"""
    role = ['x1', 'x2', 'y', 'z1', 'z2'] + (['c'] if rnd.random() < .6 else [])
    names = rnd.sample(rnd.choice([v for v in NAMES if len(v) >= len(role)]), len(role))
    rnd.shuffle(names)
    p = dict(z1x1=.8, z2x2=.8, z1x2=.3, z2x1=.3, x1y=.7, x2y=.7, x1x2=.2, cx1=.4, cx2=.4, cy=.5, cz1=.2, z1z2=.15, z2y=.1)
    m = np.zeros((len(role), len(role)))
    for i, a in enumerate(role):
        for j, b in enumerate(role):
            if rnd.random() < p.get(a + b, 0):
                m[i, j] = rnd.choice([-3, -1, 1, 2, 3])
    return names, names[2], names[:2] if rnd.random() < .7 else names[1:2], m


def roles(seed):
    from ylearn import Why
    rnd = random.Random(seed)
    evs = []
    n = rnd.randint(3, 5)
    names = rnd.choice(NAMES)[:n]
    names = names[:]
    rnd.shuffle(names)
    y = rnd.choice(names)
    what = rnd.choice(['roles', 'roles', 'treat'])
    if what == 'roles':
        kinds = ['continuous'] * n
        m = rand_matrix(rnd, n, True, 3, rnd.choice([.5, .7, .95]))
        T = rnd.sample([v for v in names if v != y], rnd.choice([1, 1, 2]) if n > 3 else 1)
        if n == 5 and rnd.random() < .7:
            names, y, T, m = with_instruments(rnd)
            n = len(names)
            kinds = ['continuous'] * n
        method = rnd.choice(['dfs', 'straight', 'simple', 'minimal', 'all', 'dfs'])
    else:
        ky = rnd.choice(['discrete', 'continuous'])
        kinds = [ky if v == y else rnd.choice(['discrete', 'continuous']) for v in names]
        w = list(range(1, 8))
        rnd.shuffle(w)
        m = np.zeros((n, n))
        for i, v in enumerate(names):
            if rnd.random() < .75 and v != y:
                m[i, names.index(y)] = w[i] * rnd.choice([1, -1])
        T = []
        method = 'dfs'
    nan = what == 'roles' and rnd.random() < .08
    data = data_for(rnd, names, y, kinds)
    before = data.copy()

    def learner(X):
        cols = X.columns.tolist()
        ix = [names.index(v) for v in cols]
        r = m[np.ix_(ix, ix)].astype(float)
        if nan:
            r[0, 0] = np.nan
        return r if rnd.random() < .5 else pd.DataFrame(r, columns=cols, index=cols)
    options = {}
    if method == 'straight' or method == 'dfs' and rnd.random() < .5:
        options = dict(method=method)
    elif method in ('simple', 'minimal', 'all'):
        options = dict(method=('backdoor', method))
    limit = rnd.randint(1, 4)
    discrete = ''
    if what == 'treat':
        yi = names.index(y)
        cand = [i for i in range(n) if m[i, yi] != 0]
        if cand and rnd.random() < .6:
            discrete = kinds[rnd.choice(cand)]

    def fn():
        kw = {}
        if discrete:
            kw['discrete_treatment'] = discrete == 'discrete'
        w = Why(identifier=learner, identifier_options=options or None, random_state=1, **kw)
        t = rnd.choice([list(T), ','.join(T)]) if T else None
        return w.identify(data, y, **(dict(treatment=t) if T else dict(treatment_count_limit=limit)))
    ok, r = attempt(fn)

    def lst(v):
        return [] if v is None else [str(x) for x in v]
    ev = dict(k=what, M=ints(m), names=names, y=y, T=T, kinds=kinds, method=method, nan=nan, limit=limit, discrete=discrete,
              raised='' if ok else r, kept=bool(before.equals(data)), out=[], adj=[], cov=[], ins=[],
              _class=(method if what == 'roles' else 'limit') + ('/nan' if nan else ''))
    if ok:
        try:
            ev.update(out=lst(r[0]), adj=lst(r[1]), cov=lst(r[2]), ins=lst(r[3]))
            if what == 'roles' and ev['out'] != T:
                ev['raised'] = 'treatments'
        except Exception as x:
            ev['raised'] = type(x).__name__
    evs.append(ev)
    return evs


def learn(seed):
    """the learners on generated data"""
    import torch
    torch.set_num_threads(1)
    from ylearn.causal_discovery import CausalDiscovery, GolemDiscovery, PgmProxy
    rnd = random.Random(seed)
    rng = np.random.default_rng(seed)
    n = rnd.randint(2, 5)
    names = rnd.choice(NAMES)[:n]
    rnd.shuffle(names)
    x = rng.normal(size=(60, n))
    for i in range(n):
        for j in range(i):
            if rnd.random() < .6:
                x[:, i] += rnd.choice([-2, 1, 2]) * x[:, j]
    perm = rng.permutation(n)
    data = pd.DataFrame(x[:, perm], columns=names)
    before = data.copy()
    which = rnd.choice(['notears', 'golem'])
    scale = rnd.choice(['auto', 'std', None])
    if which == 'notears':
        thr = rnd.choice([0.01, 0.05, .3])
        make = lambda: CausalDiscovery(hidden_layer_dim=rnd2.choice([None, [3]]), scale=scale, random_state=7)
        kw = dict(threshold=thr, epoch=rnd.choice([1, 2]), max_iter=rnd.choice([20, 100]))
    else:
        thr = rnd.choice([.001, .02])
        make = lambda: GolemDiscovery(scale=scale, random_state=7)
        kw = dict(threshold=thr, epoch=rnd.choice([5, 30]), lr=rnd.choice([.01, .05]))

    def run(d, **k):
        nonlocal rnd2
        rnd2 = random.Random(seed + 1)
        return make()(d, **kw, **k)
    rnd2 = None
    evs = []

    def fn():
        a = run(data)
        b = run(data)
        c = run(data.values.copy())
        d = run(data, return_dict=True)
        sc = lambda m: [[scaled(v, 10 ** 6) for v in r] for r in np.asarray(m).tolist()]
        return dict(cols=[str(v) for v in a.columns], rows=[str(v) for v in a.index], out=sc(a), again=sc(b), array=sc(c),
                    dict=[dict(v=str(v), c=[str(u) for u in us]) for v, us in d.items()])
    ok, r = attempt(fn, seconds=200)
    evs.append(dict(k='learn', names=names, threshold=int(thr * 10 ** 6), raised='' if ok else r, kept=bool(before.equals(data)),
                    **(r if ok else {}), _class=which))
    return evs


def job(a):
    return {'c': conversions, 'r': roles, 'l': learn}[a[0]](a[1])


def corrupt(e):
    if e['raised']:
        return None
    if e['k'] in ('trim', 'learn'):
        for i in range(len(e['out'])):
            for j in range(len(e['out'])):
                if i != j and e['out'][i][j]:
                    e['out'][j][i] = 5 * 10 ** 6
                    return e
        return None
    if e['k'] == 'dict':
        e['out'][0]['c'] = e['out'][0]['c'] + ['zz']
    elif e['k'] == 'table':
        e['out'][0][2] += 1
    elif e['k'] == 'roles':
        e['ins'] = e['ins'] + [e['names'][0]]
        e['cov'] = [v for v in e['cov'] if v != e['names'][0]]
    else:
        e['out'] = e['out'] + [e['y']]
    return e


def run():
    c = Check('C07', ['weights are small integers in the conversions', 'discovered graphs given to the identification of roles are acyclic',
                      'weights into the outcome are distinct when treatments are chosen by weight'])
    c.model('MC_Discovery', 'MC_Discovery_big.cfg' if thorough() else None)
    rnd = random.Random(SEED * 47 + 7)
    k = 8 if thorough() else 1
    jobs = [('l', rnd.randrange(2 ** 30)) for _ in range(16 * k)]
    jobs += [('c', rnd.randrange(2 ** 30)) for _ in range(400 * k)]
    jobs += [('r', rnd.randrange(2 ** 30)) for _ in range(700 * k)]
    evs = [e for es in pmap(job, jobs) for e in es]
    c.judge('Trace_Discovery', evs, corrupt=corrupt)
    c.finish()


main(run)

"""C17: what Why takes columns for, and its tables of effects"""
from whys import *


def fits(seed):
    """roles, encoders and estimators"""
    from ylearn import Why
    from ylearn.estimator_model import DoubleML, PermutedTLearner
    rnd = random.Random(seed)
    evs = []
    cont = rnd.random() < .35
    s = Asked(rnd, cont=cont, classes=0 if cont or rnd.random() < .6 else rnd.choice([2, 3]), per_arm=2, v=rnd.choice([1, 2]), w=rnd.choice([1, 2]),
              n=rnd.choice([None, None, 18, 24]))
    for c in s.columns:  # no constant columns
        if s.data[c].nunique() < 2:
            return []
    auto = rnd.random() < .12
    free = rnd.random() < .15
    how = rnd.choice(['explicit', 'explicit', 'partly', 'identified'])
    z = [s.price] if rnd.random() < .4 else []
    W, V = s.W[:], s.V[:]
    T = s.T if rnd.random() < .7 else s.T[::-1]
    if rnd.random() < .3:
        T = T[:1]
    pick = dict(t=T, w=W, v=V, z=z)
    if how == 'partly':
        for k in rnd.sample('wvz', rnd.choice([1, 2, 3])):
            pick[k] = []
    if how == 'identified':
        pick.update(w=[], v=[], z=[])
    if not (pick['w'] or pick['v']) and pick['z']:
        pick['z'] = []
    if rnd.random() < .2 and pick['v'] and how != 'identified':  # users also list the treatment there
        pick['v'] = pick['v'] + [T[0]]
    if rnd.random() < .08 and not pick['w']:  # nothing but the treatment is listed
        pick.update(v=[T[0]], z=[])
    found = dict(t=T if rnd.random() < .7 else T[:1], w=rnd.choice([W, []]), v=V, z=[])
    custom = rnd.random() < .5
    discrete, proba = not cont, bool(s.classes)
    if free and not custom:
        pick['t'] = []
    elif custom and rnd.random() < .5:
        pick['t'] = []
    plain = bool(pick['t']) or custom  # the treatments are known beforehand
    if pick['t'] == [] and custom:
        found['t'] = [c for c in found['t']]
    said = {}
    dt = dy = 'none'
    if rnd.random() < .5:
        said['discrete_treatment'] = discrete
        dt = 'yes' if discrete else 'no'
    if rnd.random() < .5:
        said['discrete_outcome'] = proba
        dy = 'yes' if proba else 'no'
    n = s.n
    uniq = [int(s.data[c].nunique()) for c in s.columns]
    kinds = [{'i': 'int', 'f': 'float'}.get(s.data[c].dtype.kind, 'text') for c in s.columns]

    def disc(c):
        j = s.num[c] - 1
        k = uniq[j]
        return k == 2 or kinds[j] == 'text' or kinds[j] == 'int' and k <= n ** .382
    t1 = (pick['t'] or found['t'])[0] if plain else None
    is_t = discrete if dt != 'none' else disc(t1) if plain else None
    is_y = proba if dy != 'none' else disc(s.Y[0])
    if plain and is_t and not is_y and not auto:
        est = PermutedTLearner(Sum())
    elif plain and is_t and not auto:
        est = PermutedTLearner(Prob(), is_discrete_outcome=True)
    elif plain and not is_y and not auto and not is_t:
        est = DoubleML(Sum(), Sum(), Cross())
    else:
        est = 'auto'
        auto = True
    if est == 'auto' and not is_t and plain and is_y:
        return []  # no estimator takes them
    if plain and not is_t and not (pick['v'] and set(pick['v']) - set(pick['t'] or found['t'])) and (pick['w'] or pick['z']):
        return []  # double machine learning needs a covariate
    if est == 'auto' and is_y:
        return []  # there may be a class missing in an arm
    limit = rnd.choice([None, 1, 2])
    if not plain:  # the default identifier chooses by importance: any of the columns may be a treatment
        pick.update(w=[], v=[], z=[])
        want = rnd.random() < .5
        said['discrete_treatment'], dt = want, 'yes' if want else 'no'
        if want:
            limit = rnd.choice([None, 1])  # there may be a combination of treatments missing
        elif rnd.random() < .5:
            limit = 3
        if not any(disc(c) == want for c in s.columns[:-1]):
            return []
    kw = {} if limit is None else dict(treatment_count_limit=limit)
    ask = {k: list(v) for k, v in pick.items()}
    names = dict(t='treatment', w='adjustment', v='covariate', z='instrument')
    for k, v in ask.items():
        if v:
            kw[names[k]] = ','.join(v) if rnd.random() < .2 else v[0] if len(v) == 1 and rnd.random() < .4 else v
    why = Why(estimator=est, identifier=identifier(found) if custom else 'auto', random_state=1, **said)
    before = s.data.copy()
    fitted0 = why._is_fitted if hasattr(why, '_is_fitted') else False
    ok, r = attempt(why.fit, s.data, s.Y[0], **kw)
    num = lambda l: [s.num[c] for c in (l or [])]
    e = dict(k='fit', asked={k: num(v) for k, v in pick.items()}, custom=custom, found={k: num(v) for k, v in found.items()}, all=num(list(s.data.columns)),
             y=s.num[s.Y[0]], saidt=dt, saidy=dy, kinds=kinds, uniq=uniq, n=n, limit=limit or min(-(-len(s.columns) // 10), 5), auto=est == 'auto',
             labels=[list(range(k)) for k in uniq], raised='' if ok else r, kept=same(before, s.data) and ask == pick, fitted=True,
             got=dict(t=[], w=[], v=[], z=[], y=0, dt=False, dy=False, tlabels=[], ylabels=[], keys=[], est=[]), _tag=f'{seed}',
             _class=f"fit {how}{' auto' if est == 'auto' else ''}{' custom' if custom else ''}{'' if plain else ' free'}")
    if ok:
        kind = dict(NP2SLS='iv', PermutedTLearner='tlearner', DoubleML='dml')

        def ranks(c, got):
            want = sorted(s.data[c].unique().tolist())
            return [want.index(x) if x in want else 99 for x in got]
        e['got'] = dict(t=num(why.treatment_), w=num(why.adjustment_), v=num(why.covariate_), z=num(why.instrument_), y=s.num.get(why.outcome_, 0),
                        dt=bool(why.discrete_treatment), dy=bool(why.discrete_outcome),
                        tlabels=[ranks(c, why.x_encoders_[c].classes_.tolist()) for c in why.treatment_] if why.x_encoders_ else [],
                        ylabels=ranks(s.Y[0], why.y_encoder_.classes_.tolist()) if why.y_encoder_ is not None else [],
                        keys=[num([k]) if isinstance(k, str) else num(k) for k in why.estimators_],
                        est=[kind.get(type(x).__name__, type(x).__name__) for x in why.estimators_.values()])
        e['fitted'] = bool(why._is_fitted) and not fitted0
    return [e]


def label_codes(s, X, combined, index):
    """(treatments, labels) of a line of the table as positions and codes"""
    name, versus = index
    if combined and len(X) > 1:
        if name != f'{[s.T[j - 1] for j in X]}' or s.nt < 2:
            return X, [99], [99]
        known = {}
        for a in s.combos_of(X):
            for b in s.combos_of(X):
                tc = np.array([[s.labels[j - 1][a[i]], s.labels[j - 1][b[i]]] for i, j in enumerate(X)]).T.tolist()
                known[f'{tc[0]} vs {tc[1]}'] = (list(a), list(b))
        t, c = known.get(versus, ([99], [99]))
        return X, t, c
    if name not in s.T:
        return [99], [99], [99]
    j = s.T.index(name)
    L = s.labels[j]
    known = {f'{a} vs {b}': ([i], [k]) for i, a in enumerate(L) for k, b in enumerate(L)}
    t, c = known.get(versus, ([99], [99]))
    return [j + 1], t, c


def tables(seed):
    rnd = random.Random(seed)
    s = asked(rnd)
    import itertools
    s.combos_of = lambda X: list(itertools.product(*[range(len(s.labels[j - 1])) for j in X]))
    evs = []
    for turn in range(rnd.choice([2, 3, 4])):
        own = rnd.random() < .25
        n = s.n if own else rnd.randint(1, 5)
        df, tests = (None, s.rows_of()) if own else s.tests(n)
        keep = None if df is None else df.copy()
        X, said = some(s)
        pos = X or list(range(1, s.nt + 1))
        combined = s.discrete and rnd.random() < .35
        ite = rnd.random() < .3
        detail = not ite and rnd.random() < .4
        q = dict(quantity=rnd.choice(['ITE', 'CATE'])) if ite else {}
        if detail:
            q['return_detail'] = True
        if combined:
            q['combine_treatment'] = True
        if said is not None:
            q['treatment'] = said
        treat, control, diff = [], [], [[1] * n for _ in pos]
        target = rnd.randint(1, s.classes) if s.proba and rnd.random() < .6 else 0
        if target:
            q['target_outcome'] = s.ylab[target - 1]
        if s.discrete:
            sizes = [len(s.labels[j - 1]) for j in pos]
            if rnd.random() < .5:
                control = [rnd.randrange(k) for k in sizes]
            c0 = control or [0] * len(sizes)
            if rnd.random() < .4:
                while True:
                    treat = [rnd.randrange(k) for k in sizes]
                    if treat != c0 if combined else all(a != b for a, b in zip(treat, c0)):
                        break
            if treat:
                q['treat'] = words(s, pos, treat)
            if control:
                q['control'] = words(s, pos, control)
        else:
            def numbers(default):
                if rnd.random() < .4:
                    return None, [[default] * n for _ in pos]
                if rnd.random() < .6 or own:
                    a = [rnd.randint(-1, 3) for _ in pos]
                    v = [float(x) if rnd.random() < .5 else x for x in a]
                    return v[0] if len(v) == 1 and rnd.random() < .6 else v, [[x] * n for x in a]
                a = [[rnd.randint(-1, 3) for _ in range(n)] for _ in pos]
                v = [rnd.choice([np.array(x), pd.Series(x, index=range(5, 5 + n))]) for x in a]
                return v[0] if len(v) == 1 else v, a
            t, ta = numbers(1)
            c, ca = numbers(0)
            if t is not None:
                q['treat'] = t
            if c is not None:
                q['control'] = c
            diff = [[a - b for a, b in zip(x, y)] for x, y in zip(ta, ca)]
        if s.cost and own:
            continue  # there is no price to ask for
        if not s.broken and (s.discrete and len(pos) > 2 and combined):
            continue
        ok, r = (False, s.broken) if s.broken else attempt(s.why.causal_effect, df, **q)
        out = []
        unit = 8 if s.proba else 1
        if ok:
            try:
                if ite:
                    assert len(r) == n
                    lines = [(k, None, r[k].tolist() if r.columns.is_unique else [0]) for k in r.columns]
                else:
                    lines = [(k, r.iloc[i], None) for i, k in enumerate(r.index)]
                for k, line, each in lines:
                    x, t, c = label_codes(s, pos, combined, k) if s.discrete else ([s.T.index(k) + 1], [], [])
                    o = dict(x=x, t=t, c=c, sum=0, min=0, max=0, var=0, all=[])
                    if line is not None:
                        std = float(line['std'])
                        o.update(sum=exact(line['mean'], unit * n), min=exact(line['min'], unit), max=exact(line['max'], unit),
                                 var=exact(std * std, unit * unit * n * n) if max(abs(line['min']), abs(line['max'])) * unit * n < 40000 else -1)
                        if detail:
                            each = np.asarray(line['detail']).ravel().tolist()
                    if each is not None:
                        o['all'] = [exact(v, unit) for v in each]
                    out.append(o)
            except Exception as x:
                ok, r = False, f'{type(x).__name__} {x}'
        kept = s.kept and (df is None or same(df, keep))
        evs.append(dict(k='table', X=X, treat=treat, control=control, combined=combined, ite=ite, detail=detail, diff=diff, tests=tests, out=out,
                        raised='' if ok else r, kept=kept, _tag=f'{seed}/{turn}', **base(s, target=target),
                        _class=f"table {'discrete' if s.discrete else 'continuous'}{' proba' if s.proba else ''}{' combined' if combined else ''}{' cost' if s.cost else ''}"))
    return evs


def corrupt(e):
    if e['raised']:
        return None
    if e['k'] == 'fit':
        e['got']['keys'] = e['got']['keys'][1:]
        return e
    if not e['out'] or (not e['ite'] and not e['detail'] and not e['out'][0]):
        return None
    if e['ite']:
        e['out'][0]['all'][0] += 1
    else:
        e['out'][0]['sum'] += 1
    return e


def run():
    c = Check('C17', ['the plugged-in models are exact stand-ins; the estimators themselves are judged elsewhere',
                      'with the default identifier of treatments only the choice among candidates is free'])
    c.model('MC_Why', 'MC_Why3.cfg' if thorough() else None)
    n = 4000 if thorough() else 700
    a, b = SEED * 100000, SEED * 100000 + n
    evs = [e for l in pmap(fits, range(a, b), chunksize=10) for e in l] + [e for l in pmap(tables, range(a, b), chunksize=10) for e in l]
    c.judge('Trace_Why', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

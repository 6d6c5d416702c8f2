"""C18: what Why says about single individuals: what-if, own effects, uplift and policies"""
from whys import *


def ask(seed):
    from ylearn.uplift import auuc_score
    rnd = random.Random(seed)
    s = asked(rnd)
    import itertools
    evs = []
    unit = 8 if s.proba else 1
    for turn in range(rnd.choice([2, 3, 4])):
        k = rnd.choice(['whatif', 'individual', 'uplift', 'policy'] if s.discrete else ['whatif', 'whatif', 'individual', 'policy'])
        if k == 'whatif' and s.proba:
            k = 'individual'
        n = rnd.randint(1, 6)
        df, tests = s.tests(n)
        target = rnd.randint(1, s.classes) if s.proba and rnd.random() < .6 else 0
        q = dict(target_outcome=s.ylab[target - 1]) if target else {}
        X, said = some(s, 1 if k == 'whatif' else None)
        pos = X or list(range(1, s.nt + 1))
        treat, control, new, out, extra = [], [], [], [], {}
        keep = df.copy()
        ok, r = False, s.broken
        if k == 'whatif':
            x = pos[0]
            if s.discrete:
                new = [rnd.randrange(len(s.labels[x - 1])) for _ in range(n)]
                v = [s.labels[x - 1][c] for c in new]
            else:
                new = [rnd.randint(-2, 3) for _ in range(n)]
                v = new if rnd.random() < .5 else [float(a) for a in new]
            v = pd.Series(v, index=df.index) if rnd.random() < .5 else np.array(v)
            if said is not None:
                q['treatment'] = s.T[x - 1]
            if not s.broken:
                ok, r = attempt(s.why.whatif, df, v, **q)
            if ok:
                extra['index'] = isinstance(r, pd.Series) and r.index.equals(df.index)
                out = [exact(a, unit) for a in np.asarray(r).ravel()]
            else:
                extra['index'] = False
        elif k == 'individual':
            X, pos = [], list(range(1, s.nt + 1))
            if rnd.random() < .6:
                control = [rnd.randrange(len(s.labels[j - 1])) for j in pos] if s.discrete else [rnd.randint(-1, 2) for _ in pos]
                q['control'] = words(s, pos, control) if s.discrete else control[0] if len(pos) == 1 and rnd.random() < .5 else control
            if not s.broken:
                ok, r = attempt(s.why.individual_causal_effect, df, **q)
            if ok:
                try:
                    if s.discrete:
                        for m, (key, line) in enumerate(zip(r.index, r['effect'].tolist())):
                            i, x = m // s.nt, m % s.nt
                            L = s.labels[x]
                            known = {f'{a} vs {b}': (p, o) for p, a in enumerate(L) for o, b in enumerate(L)}
                            t, c = known.get(key[2], (99, 99))
                            if key[0] != df.index[i] or key[1] != s.T[x]:
                                t = 98
                            out.append(dict(i=i + 1, x=x + 1, t=t, c=c, e=exact(line, unit)))
                    else:
                        assert list(r.columns) == s.T
                        out = [[exact(v) for v in row] for row in r.values.tolist()]
                except Exception as x:
                    ok, r = False, f'{type(x).__name__} {x}'
        elif k == 'uplift':
            sizes = [len(s.labels[j - 1]) for j in pos]
            if rnd.random() < .5:
                treat = [rnd.randrange(a) for a in sizes]
            if rnd.random() < .5:
                control = [rnd.randrange(a) for a in sizes]
            t, c = treat or [a - 1 for a in sizes], control or [0] * len(sizes)
            if t == c:
                continue
            # both arms are among the tested
            both = rnd.sample([t, c], 2)
            n = max(n, 3)
            df, tests = s.tests(n)
            for i, arm in enumerate(both + [rnd.choice(both)]):
                for j, p in enumerate(pos):
                    row = list(tests[i]['t'])
                    row[p - 1] = arm[j]
                    tests[i]['t'] = row
                    col = df.columns.get_loc(s.T[p - 1])
            for j, name in enumerate(s.T):
                df[name] = [s.labels[j][u['t'][j]] for u in tests]
            keep = df.copy()
            if treat:
                q['treat'] = words(s, pos, treat)
            if control:
                q['control'] = words(s, pos, control)
            qq = dict(q) if said is None else dict(q, treatment=said)
            own = rnd.random() < .3
            if own:
                qq['name'] = 'my lift'
            if not s.broken:
                ok, r = attempt(s.why.uplift_model, df, **qq)
            extra.update(name=[], score=True)
            if ok:
                try:
                    lift = r.lift_
                    name = [x for x in lift.columns if x not in ('_x_', '_y_')]
                    assert len(name) == 1
                    known = {'_'.join(str(s.labels[p - 1][a[j]]) for j, p in enumerate(pos)): list(a) for a in itertools.product(*map(range, sizes))}
                    extra['name'] = t if own and name[0] == 'my lift' else known.get(name[0], [])
                    arms = {tuple(t), tuple(c)}
                    want = [i for i, u in enumerate(tests) if tuple(u['t'][p - 1] for p in pos) in arms]
                    order = [i + 1 for i in want] if lift.index.equals(df.index[want]) else [0] * len(lift)
                    out = [dict(i=i, e=exact(a, unit), x=exact(b), y=exact(y)) for i, a, b, y in zip(order, lift[name[0]], lift['_x_'], lift['_y_'])]
                    if len(out) != len(lift):
                        out = []
                    if said is None:
                        for fn, sc in ((auuc_score, 'auuc'),):  # the other one is random
                            ref = fn(lift, outcome='_y_', treatment='_x_', random_name=None, normalize=True)
                            ref = float(ref.mean())
                            ok2, got = attempt(s.why.score, df, scorer=sc, **q)
                            if not ok2 or not np.isclose(float(got), ref, equal_nan=True):
                                extra['score'] = False
                except Exception as x:
                    ok, r = False, f'{type(x).__name__} {x}'
        else:
            root = not s.discrete or rnd.random() < .6
            if not s.discrete and len(pos) == 1 or not s.V:  # nothing a policy may depend on
                continue
            if s.discrete and rnd.random() < .5:
                control = [rnd.randrange(len(s.labels[j - 1])) for j in pos]
                q['control'] = words(s, pos, control)
            if said is not None:
                q['treatment'] = said
            if root:
                q['min_samples_split'] = n + 1
            per = 840 if s.discrete else n
            decide = []
            if not s.broken:
                ok, r = attempt(s.why.policy_interpreter, df, **q)
            if ok:
                try:
                    out = [[exact(v, unit * per) for v in row] for row in np.asarray(r.predict(df)).tolist()]
                    known = {'_'.join(str(s.labels[p - 1][a[j]]) for j, p in enumerate(pos)): list(a)
                             for a in itertools.product(*[range(len(s.labels[p - 1])) for p in pos])} if s.discrete else {s.T[p - 1]: [p] for p in pos}
                    decide = [known.get(str(x), []) for x in np.asarray(r.decide(df)).ravel().tolist()]
                except Exception as x:
                    ok, r = False, f'{type(x).__name__} {x}'
            extra.update(root=root, per=per, decide=decide)
        evs.append(dict(k=k, X=X, treat=treat, control=control, new=new, tests=tests, out=out, raised='' if ok else r, kept=s.kept and same(df, keep),
                        _tag=f'{seed}/{turn}', **extra, **base(s, target=target, cost=k in ('whatif', 'policy')),
                        _class=f"{k} {'discrete' if s.discrete else 'continuous'}{' proba' if s.proba else ''}{' cost' if s.cost else ''}"))
    return evs


def corrupt(e):
    if e['raised'] or not e['out']:
        return None
    if e['k'] == 'whatif':
        e['out'][0] += 1
    elif e['k'] == 'policy':
        e['out'][0][0] += 1
    elif isinstance(e['out'][0], dict):
        e['out'][0]['e'] += 1
    else:
        e['out'][0][0] += 1
    return e


def run():
    c = Check('C18', ['the plugged-in models are exact stand-ins; the estimators, uplift curves and policy trees themselves are judged elsewhere'])
    c.model('MC_Why', 'MC_Why3.cfg' if thorough() else None)
    n = 6000 if thorough() else 900
    evs = [e for l in pmap(ask, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Why', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

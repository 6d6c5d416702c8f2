"""C12: bounds of the effect"""
from estimators import *


def ints1(r, n, unit):
    a = np.asarray(r, dtype=float)
    return None if a.size != n else [exact(x, unit) for x in a.reshape(-1)]


def study(seed):
    from ylearn.estimator_model.approximation_bound import ApproxBound
    rnd = random.Random(seed)
    evs = []
    nocov = rnd.random() < .3
    given = rnd.random() < .25
    est = None
    for turn in range(rnd.choice([1, 1, 2])):
        s = Study(rnd, D=1, w=0, v=rnd.choice([1, 2]), ymax=4, prefix=rnd.choice(['', 'p_']))
        A = len(s.combos)
        prob = []
        if est is None or given:
            if given:
                prob = {2: [5, 3], 3: [1, 3, 4], 4: [1, 2, 2, 3], 6: [1, 1, 1, 1, 2, 2]}[A]
                rnd.shuffle(prob)
            est = ApproxBound(Sum(), x_prob=np.array(prob) / 8 if prob else None, x_model=Prob() if not nocov or rnd.random() < .3 else None)
        rows = s.rows_vx()
        if nocov:
            for r in rows:
                r['v'] = []
        roles = s.roles()
        roles.pop('adjustment')
        if nocov:
            roles.pop('covariate')
        disc = not nocov and rnd.random() < .3
        before = s.data.copy()
        ok, r = attempt(est.fit, s.data, is_discrete_covariate=disc, **roles)
        base = dict(k='bound', nocov=nocov, prob=prob, rows=rows, _tag=f'{seed}/{turn}',
                    _class=f"{'no covariate' if nocov else 'covariate'}{' given probabilities' if prob else ''}{' discrete' if disc else ''}")
        if not ok:
            evs.append(dict(treat=[], control=[], upper=999, lower=999, assump='', data=rows, out=[], raised=r, kept=True, **base))
            break
        for _ in range(rnd.choice([1, 2, 3])):
            q = {}
            t = c = ()
            if rnd.random() < .6:
                t = rnd.choice(s.combos)
            if rnd.random() < .6 or t == s.combos[0]:
                c = rnd.choice([x for x in s.combos if x != (t or s.combos[1])])
            if t:
                q['treat'] = s.label(t)
            if c:
                q['control'] = s.label(c)
            up = lo = 999
            if rnd.random() < .3:
                q['y_upper'] = up = rnd.choice([0, 4, 5, 6, 7, 8, 9])
            if rnd.random() < .3:
                q['y_lower'] = lo = rnd.choice([-9, -8, -7, -6, -5, -4, 0])
            assump = rnd.choice([None, None, 'no-assump', 'non-negative', 'non-positive'])
            if assump:
                q['assump'] = assump
            data, df, keep = rows, None, None
            if rnd.random() < .5:
                pick = [rnd.randrange(s.n) for _ in range(rnd.randint(2, 6))]
                tt, cc = t or s.combos[1], c or s.combos[0]
                for w in (tt, cc):
                    pick.append(rnd.choice([i for i in range(s.n) if s.t[i] == w]))
                df = s.dress(s.data.iloc[pick].copy())
                data = [dict(rows[i]) for i in pick]
                keep = df.copy()
            ok, r = attempt(est.estimate, df, **q)
            out = []
            unit = s.n if nocov and not prob else 8
            n = 1 if nocov else len(data)
            if ok:
                try:
                    lo_, up_ = ints1(r[0], n, unit), ints1(r[1], n, unit)
                    out = [list(p) for p in zip(lo_, up_)] if len(r) == 2 else []
                except Exception as x:
                    out = []
            kept = same(before, s.data) and (df is None or same(df, keep))
            evs.append(dict(treat=list(t), control=list(c), upper=up, lower=lo, assump=assump or '', data=data, out=out, raised='' if ok else r, kept=kept, **base))
    return evs


def corrupt(e):
    if e['raised'] or not e['out']:
        return None
    e['out'][0][1 if e['assump'] == 'non-negative' else 0] += 1
    return e


def run():
    c = Check('C12', ['the plugged-in models are exact stand-ins; the undocumented "optimal" bounds are not judged'])
    c.model('MC_Bound', 'MC_Bound4.cfg' if thorough() else None)
    n = 5000 if thorough() else 900
    evs = [e for l in pmap(study, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Study', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

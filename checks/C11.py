"""C11: the doubly robust estimator"""
from estimators import *


def study(seed):
    from ylearn.estimator_model.doubly_robust import DoublyRobust
    from ylearn.estimator_model import PermutedDoublyRobust
    rnd = random.Random(seed)
    evs = []
    permuted = rnd.random() < .25
    fold = rnd.choice([1, 1, 2, 3, 4, 5])
    rare = rnd.random() < .3
    est = (PermutedDoublyRobust if permuted else DoublyRobust)(Rare() if rare else Prob(), Sum(), Sum(), cf_fold=fold)
    for turn in range(rnd.choice([1, 1, 2])):
        s = Study(rnd, v=rnd.choice([0, 1, 1, 2]), per_arm=3 if fold > 1 else 2, ymax=2, folds=fold, prefix=rnd.choice(['', 'p_']))
        A = len(s.combos)
        before = s.data.copy()
        ft = fc = ()
        fkw = {}
        if not permuted:
            if rnd.random() < .6:
                ft = rnd.choice(s.combos)
                fkw['treat'] = s.label(ft)
            if rnd.random() < .6 or ft == s.combos[0]:
                fc = rnd.choice([c for c in s.combos if c != (ft or s.combos[1])])
                fkw['control'] = s.label(fc)
        else:
            fkw['n_jobs'] = 1
        ok, r = attempt(est.fit, s.data, **s.roles(), **fkw)
        nocov = not s.V
        base = dict(k='dr', permuted=permuted, fold=fold, rare=rare, D=s.D, rows=s.rows_vx(), nocov=nocov, _tag=f'{seed}/{turn}',
                    _class=f"{'permuted ' if permuted else ''}{'no covariate' if nocov else ''}{' folds' if fold > 1 else ''}{' rare' if rare else ''}")
        if not ok:
            evs.append(dict(form='plain', treat=[], control=[], tests=[], out=[], raised=r, kept=True, **base))
            break
        for _ in range(rnd.choice([1, 2])):
            own = nocov or rnd.random() < .25
            n = s.n if own else rnd.randint(1, 4)
            df, f = (None, [a + b for a, b in zip(s.fw, s.fv)]) if own else s.test(n)
            keep = None if df is None else df.copy()
            form = rnd.choice(['plain', 'plain', 'nji', 'mean'] + ([] if permuted else ['all']))
            t, c, q = ft, fc, {}
            if permuted:
                c = rnd.choice(s.combos) if rnd.random() < .7 else ()
                t = rnd.choice([x for x in s.combos if x != (c or s.combos[0])]) if rnd.random() < .7 else ()
                if not t and c == s.combos[-1]:
                    t = s.combos[0]
                if t and form != 'nji':
                    q['treat'] = s.label(t)
                if c:
                    q['control'] = s.label(c)
                if form == 'nji':
                    q['n_jobs'] = 1
            elif form in ('plain', 'mean') and rnd.random() < .3:
                t = rnd.choice(s.combos)
                q['treat'] = s.label(t)
            if form == 'all':
                q['all_tr_effects'] = True
            if form == 'nji':
                ok, r = attempt(est.effect_nji, df, **q)
            else:
                if form == 'mean':
                    q['quantity'] = 'ATE' if nocov else rnd.choice(['ATE', 'CATE'])
                ok, r = attempt(est.estimate, df, **q)
            a = A if form == 'all' or form == 'nji' and permuted else 2 if form == 'nji' else 1
            out = []
            if ok:
                x = np.asarray(r, dtype=float)
                shape = (1 if form == 'mean' else n, s.D, a)
                if x.size == int(np.prod(shape)):
                    out = [[[scaled(v, 300 * (n if form == 'mean' else 1)) for v in p] for p in m] for m in x.reshape(shape)]
            kept = same(before, s.data) and (df is None or same(df, keep))
            evs.append(dict(form=form, treat=list(t), control=list(c), tests=[x[len(s.W):] for x in f], out=out, raised='' if ok else r, kept=kept, **base))
    return evs


def corrupt(e):
    if e['raised'] or not e['out']:
        return None
    e['out'][0][0][-1] += (20000000 if e['rare'] else 20000) + abs(e['out'][0][0][-1])
    return e


def run():
    c = Check('C11', ['the plugged-in models are exact stand-ins; the 1e-5 added to propensities is within the tolerance'])
    c.model('MC_DoubleRobust', 'MC_DoubleRobust_big.cfg' if thorough() else None)
    n = 4000 if thorough() else 500
    evs = [e for l in pmap(study, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Study', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

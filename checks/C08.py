"""C08: S-, T-, X-learners and their permuted versions"""
from estimators import *


def answers(rnd, s, est, learner, permuted, separate, mode, treat, control, evs, tag):
    proba = mode == 'proba'
    before = s.data.copy()
    K = len(s.ylab) if proba else s.D
    A = len(s.combos)
    for _ in range(rnd.choice([1, 2])):
        own = rnd.random() < .25
        n = s.n if own else rnd.randint(1, 4)
        df, f = (None, [a + b for a, b in zip(s.fw, s.fv)]) if own else s.test(n)
        keep = None if df is None else df.copy()
        form = rnd.choice(['plain', 'plain', 'nji', 'mean'])
        rho = 2
        target = 0
        if learner == 'X' and form != 'nji' and not (permuted and proba) and rnd.random() < .6:
            rho = rnd.choice([0, 1, 3, 4])
        if proba and (form != 'nji' or permuted) and rnd.random() < .6:
            target = rnd.randint(1, K)
        t, c = treat, control
        if permuted:
            c = rnd.choice(s.combos) if rnd.random() < .7 else ()
            t = rnd.choice([x for x in s.combos if x != (c or s.combos[0])]) if rnd.random() < .7 else ()
            if not t and c == s.combos[-1]:
                t = s.combos[0]
        kw = {}
        if target:
            kw['target_outcome'] = s.ylab[target - 1]
        if form == 'nji':
            if permuted:
                if c:
                    kw['control'] = s.label(c)
                kw['n_jobs'] = 1
            ok, r = attempt(est.effect_nji, df, **kw)
        else:
            if permuted:
                if t:
                    kw['treat'] = s.label(t)
                if c:
                    kw['control'] = s.label(c)
            if learner == 'X' and rho != 2:
                kw['rho'] = rho / 4
            if form == 'mean':
                kw['quantity'] = rnd.choice(['ATE', 'CATE'])
            ok, r = attempt(est.estimate, df, **kw)
        unit = (8 if proba else 1) * (4 if learner == 'X' else 1)
        k = 1 if target or permuted and proba else K
        a = 1
        if permuted and form == 'nji':
            a = A
        elif separate:
            a = A - 1
        if form == 'nji' and not permuted:
            a += 1
        out = []
        if ok:
            try:
                out = cube(r, (1, k, a), unit * n) if form == 'mean' else cube(r, (n, k, a), unit)
            except Exception as x:
                ok, r = False, type(x).__name__
        kept = same(before, s.data) and (df is None or same(df, keep))
        evs.append(dict(k=form, learner=learner, permuted=permuted, separate=separate, mode=mode, D=s.D, rows=s.rows(mode == 'label'), tests=f, form=form,
                        treat=list(t), control=list(c), rho=rho, target=target, out=out, raised='' if ok else r, kept=kept,
                        _class=f"{'permuted ' if permuted else ''}{learner}{' separate' if separate else ''}{'' if mode == 'reg' else ' ' + mode}", _tag=tag))


def study(seed):
    from ylearn.estimator_model.meta_learner import SLearner, TLearner, XLearner
    from ylearn.estimator_model import PermutedSLearner, PermutedTLearner, PermutedXLearner
    rnd = random.Random(seed)
    evs = []
    learner = rnd.choice('STX')
    permuted = rnd.random() < .35
    mode = rnd.choice(['reg', 'reg', 'reg', 'proba', 'proba', 'label'])
    proba = mode == 'proba'
    separate = not permuted and rnd.random() < .3
    cls = {('S', False): SLearner, ('T', False): TLearner, ('X', False): XLearner,
           ('S', True): PermutedSLearner, ('T', True): PermutedTLearner, ('X', True): PermutedXLearner}[learner, permuted]
    kw = dict(is_discrete_outcome=mode != 'reg', proba_output=proba)
    if learner == 'X' and proba:
        kw['final_proba_model'] = Sum()
    est = cls(Sum() if mode == 'reg' else Prob(), **kw)
    for turn in range(rnd.choice([1, 1, 2])):
        s = Study(rnd, classes=0 if mode == 'reg' else rnd.choice([2, 2, 3]), numeric=mode == 'label', prefix=rnd.choice(['', 'p_']),
                  n_treat=1 if separate and learner == 'S' else None, per_arm=2 if mode != 'reg' or seed % 4 else 1)
        treat, control = (), ()
        if not permuted and not separate:
            if rnd.random() < .6:
                treat = rnd.choice(s.combos)
            if rnd.random() < .6 or treat == s.combos[0]:
                control = rnd.choice([c for c in s.combos if c != (treat or s.combos[1])])
        fit = dict(s.roles())
        if treat:
            fit['treat'] = s.label(treat)
        if control:
            fit['control'] = s.label(control)
        if separate:
            fit['combined_treatment'] = False
        if permuted:
            fit['n_jobs'] = 1
        before = s.data.copy()
        ok, r = attempt(est.fit, s.data, **fit)
        if not ok or not same(before, s.data):
            evs.append(dict(k='fit', learner=learner, permuted=permuted, separate=separate, mode=mode, D=s.D, rows=s.rows(mode == 'label'), tests=[], form='plain',
                            treat=list(treat), control=list(control), rho=2, target=0, out=[], raised='' if ok else r, kept=same(before, s.data),
                            _tag=str(seed)))
            if not ok:
                break
        answers(rnd, s, est, learner, permuted, separate, mode, treat, control, evs, f'{seed}/{turn}')
    return evs


def corrupt(e):
    if e['raised'] or not e['out']:
        return None
    e['out'][0][0][0] += 1
    return e


def run():
    c = Check('C08', ['the plugged-in models are exact stand-ins; samples of all shapes of study, not all studies'])
    c.model('MC_MetaLearner', 'MC_MetaLearner5.cfg' if thorough() else None)
    n = 6000 if thorough() else 900
    evs = [e for l in pmap(study, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Meta', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

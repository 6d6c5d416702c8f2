"""C21: the R-loss of an estimator"""
from estimators import *


class Fake:
    """an estimator whose effects are known: they are computed from the columns it is handed by name"""
    is_discrete_treatment = False

    def __init__(self, s, coef, D):
        self.s, self.coef, self.D = s, coef, D
        self.asked = None

    def effects(self, rows):
        s = self.s
        return [[[(self.coef[j][a][0] + sum(k * r[c] for k, c in zip(self.coef[j][a][1:], s.V + s.W))) for a in range(s.nt)] for j in range(self.D)] for r in rows]

    def estimate(self, data=None, treat=None, control=None, quantity=None):
        self.asked = (treat, control)
        return np.array(self.effects(data.to_dict('records')), dtype=float)


def study(seed):
    from ylearn.estimator_model.effect_score import RLoss
    from ylearn.estimator_model.meta_learner import TLearner
    rnd = random.Random(seed)
    evs = []
    discrete = rnd.random() < .6
    fold = rnd.choice([1, 1, 2, 3, 4, 5])
    kw = dict(is_discrete_treatment=discrete, cf_fold=fold)
    if rnd.random() < .25:
        kw['covariate_transformer'] = More()
    if rnd.random() < .25:
        kw['adjustment_transformer'] = More()
    loss = RLoss(Prob() if discrete else Sum(), Sum(), **kw)
    for turn in range(rnd.choice([1, 1, 2])):
        s = Study(rnd, cont=not discrete, v=rnd.choice([1, 1, 2]), per_arm=3 if fold > 1 else 2, ymax=2, folds=fold if discrete else 1, prefix=rnd.choice(['', 'p_']))
        before = s.data.copy()
        base = dict(k='rloss', discrete=discrete, fold=fold, D=s.D, rows=s.rows_vx(), _tag=f'{seed}/{turn}',
                    _class=f"{'discrete' if discrete else 'continuous'}{' folds' if fold > 1 else ''}")
        roles = s.roles()
        ok, r = attempt(loss.fit, s.data, **roles)
        for _ in range(2):
            t = c = ()
            tau = []
            if not ok:
                evs.append(dict(treat=[], control=[], tau=[], out=[], raised=r, kept=True, **base))
                return evs
            if discrete:
                other = s
                est = TLearner(Sum())
                q = {}
                if rnd.random() < .6:
                    t = rnd.choice(s.combos)
                    q['treat'] = s.label(t)
                if rnd.random() < .6 or t == s.combos[0]:
                    c = rnd.choice([x for x in s.combos if x != (t or s.combos[1])])
                    q['control'] = s.label(c)
                # the tested estimator may order its roles in its own way
                est.fit(s.data, roles['outcome'], roles['treatment'], adjustment=s.W[::-1] or None, covariate=s.V[::-1] if rnd.random() < .5 else s.V, **q)
            else:
                est = Fake(s, [[[rnd.randint(-2, 2) for _ in range(1 + len(s.V + s.W))] for _ in range(s.nt)] for _ in range(s.D)], s.D)
                tau = est.effects([dict(zip(s.W + s.V, a + b)) for a, b in zip(s.fw, s.fv)])
            ok2, r2 = attempt(loss.score, est)
            out = []
            if ok2:
                a = np.asarray(r2, dtype=float).reshape(-1)
                out = [exact(x, s.n * (64 if discrete else 1)) for x in a]
            evs.append(dict(treat=list(t), control=list(c), tau=tau, out=out, raised='' if ok2 else r2, kept=same(before, s.data), **base))
    return evs


def corrupt(e):
    if e['raised'] or not e['out']:
        return None
    e['out'][0] += 1
    return e


def run():
    c = Check('C21', ['the plugged-in models are exact stand-ins'])
    c.model('MC_DoubleML', 'MC_DoubleML_big.cfg' if thorough() else None)
    n = 4000 if thorough() else 700
    evs = [e for l in pmap(study, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Study', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

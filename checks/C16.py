"""C16: generalized random forests and causal forests"""
from trees import *


def thousandths(v):
    return BIG if not np.isfinite(v) or abs(v) > 1e5 else int(round(float(v) * 1000))


def sizes(rnd, n, kw, B):
    """how many rows a tree draws and how many of these give its weights (0: those which grew it)"""
    z = rnd.choice([None, 'int', 'float', 'all'])
    num = round(.85 * n)
    if z == 'int':
        kw['sub_sample_num'] = num = rnd.randint(3, n)
    elif z == 'float':
        f = rnd.choice([.5, .75, .9])
        kw['sub_sample_num'], num = f, round(n * f)
    elif z == 'all':
        kw['sub_sample_num'] = num = n
    held = 0
    if num > 2 and rnd.random() < .5:
        if rnd.random() < .6:
            kw['honest_subsample_num'] = held = rnd.randint(1, num - 1)
        else:
            f = rnd.choice([.25, .5, .6])
            kw['honest_subsample_num'], held = f, round(f * num)
        if not 0 < held < num:
            del kw['honest_subsample_num']
            held = 0
    return num, held


def options(rnd, n, sampled, nf, gain):
    """arguments of the forest, limits, what binds the splits, rows drawn and held out, number of trees"""
    kw = {}
    B = rnd.choice([1, 1, 2]) if sampled else rnd.choice([1, 2, 3])
    kw['n_estimators'] = B
    if sampled:
        num, held = sizes(rnd, n, kw, B)
    else:
        kw['sub_sample_num'] = rnd.choice([1.0, n])
        num, held = n, 0
    lim, more = limits(rnd, num - held)
    kw.update(more)
    if rnd.random() < .3:
        kw['max_leaf_nodes'] = lim['leaves'] = rnd.randint(2, 5)
    if rnd.random() < .2:
        q = rnd.randint(1, 4)
        kw['min_weight_fraction_leaf'], lim['weight'] = q / 16, [q, 16]
    if rnd.random() < .25:
        q = rnd.choice([1, 2, 4])
        kw['min_impurity_decrease'], lim['decrease'] = q / 4, [10000 * q, 1]
    by = 'gain' if gain else 'any'
    if gain and nf > 1 and rnd.random() < .15:
        kw['max_features'], by = rnd.choice([1, .5]), 'feature'
    if rnd.random() < .6:
        kw['random_state'] = rnd.randint(0, 99)
    if rnd.random() < .4:
        kw['n_jobs'] = rnd.choice([1, 2])
    return kw, lim, by, num, held, B


def word(lim, by, num, held, n, kw):
    return f"{' sampled' if num < n else ''}{' honest' if held else ''}{' best-first' if lim['leaves'] else ''}{' some features' if by == 'feature' else ''}" \
           f"{' weight' if lim['weight'][0] else ''}{' decrease' if lim['decrease'][0] else ''}"


def grf(seed):
    from ylearn.estimator_model import GRForest
    rnd = random.Random(seed)
    evs = []
    sampled = rnd.random() < .35
    obj, frozen = None, None
    for turn in range(rnd.choice([1, 1, 2])):
        warm = turn and getattr(obj, 'warm_start', False)
        if warm:
            obj.n_estimators = B = B + rnd.randint(0, 1 if B == 1 or not sampled else 0)
        else:
            n = rnd.randint(4, 6) if sampled else rnd.randint(4, 10)
            nf, nt = rnd.choice([1, 2, 2, 3]), rnd.choice([1, 1, 1, 2])
            lev = rnd.choice([1, 2, 4])
            top = rnd.choice([1, 1, 2])
            xs = [[2 * rnd.randint(0, lev) for _ in range(nf)] for _ in range(n)]
            ts = [[rnd.randint(0, top) for _ in range(nt)] for _ in range(n)]
            ys = [rnd.randint(-3, 3) for _ in range(n)]
            if rnd.random() < .4:
                ys = [(2 if x[0] > lev else -1) * t[0] + rnd.randint(-1, 1) for x, t in zip(xs, ts)]
            if obj is None:
                kw, lim, by, num, held, B = options(rnd, n, sampled, nf, nt == 1)
                if rnd.random() < .25:
                    kw['warm_start'] = True
                if rnd.random() < .5:
                    kw['is_discrete_treatment'] = rnd.random() < .5
                obj = GRForest(**kw)
            else:
                if any(isinstance(v, float) or k in ('sub_sample_num', 'honest_subsample_num') for k, v in kw.items() if k not in ('min_weight_fraction_leaf', 'min_impurity_decrease')):
                    if kw.get('sub_sample_num') != 1.0 or len(kw) > 2:
                        break
                if by != ('gain' if nt == 1 else 'any'):
                    break
                num = n if kw.get('sub_sample_num') == 1.0 else round(.85 * n)
            fn = rnd.choice([['v1', 'v2', 'v3'], ['b', 'a', 'c'], ['x 1', 'x0', 'x']])[:nf]
            cols = [(c, rnd.choice([0, 0, -3, 100]), rnd.choice([1, .5, 10])) for c in fn]
            s = dict(cols=cols)
            df = frame(rnd, s, xs)
            tn = ['treat', 'arm'][:nt]
            for j, c in enumerate(tn):
                df[c] = [t[j] for t in ts]
                if rnd.random() < .5:
                    df[c] = df[c].astype(float)
            df['y'] = ys
            df = dress(rnd, df)
            one = lambda l: l[0] if len(l) == 1 and rnd.random() < .5 else list(l)
        before = df.copy()
        base = dict(k='grf', rows=[dict(x=x, c=t, y=y) for x, t, y in zip(xs, ts, ys)], lim=lim, by=by, num=num, held=held, count=B, u=1, ctrl=0, fold=1, more=False,
                    trees=[], asks=[], imp=[], _tag=f'{seed}/{turn}',
                    _class=f"grf{word(lim, by, num, held, n, kw)}{' two treatments' if nt > 1 else ''}{' warm' if warm else ' refitted' if turn else ''}")
        kw_fit = dict(adjustment=None) if rnd.random() < .2 else {}
        ok, r = attempt(obj.fit, df, 'y', one(tn), covariate=one(fn), **kw_fit)
        if not ok:
            evs.append(dict(base, raised=r, kept=same(before, df)))
            break
        try:
            trees = [nodes(t.tree_, cols) for t in obj.estimators_]
            for t in trees:
                for k in t:
                    del k['val'], k['w']
            if warm and trees[:len(frozen)] != frozen:
                trees = []
            frozen = trees
            asks = []
            for _ in range(rnd.choice([1, 2])):
                own = rnd.random() < .3
                long = not own and rnd.random() < .15
                tests = xs if own else [[rnd.randint(-1, 2 * lev + 1) for _ in range(nf)] for _ in range(rnd.choice([101, 150, 230]) if long else rnd.randint(1, 4))]
                tdf = None if own else dress(rnd, frame(rnd, s, tests, rnd.random() < .5))
                m = len(tests)
                if tdf is not None and rnd.random() < .2:
                    tdf = tdf[fn].values
                kept = None if tdf is None else tdf.copy()
                eff = matrix(obj.estimate(tdf) if rnd.random() < .5 else obj.estimate(data=tdf), m, nt)
                if tdf is not None and not (np.array_equal(kept, tdf) if isinstance(tdf, np.ndarray) else same(kept, tdf)):
                    eff[:] = np.nan
                leaf = []
                if tdf is None or isinstance(tdf, np.ndarray) or rnd.random() < .5:
                    arr = df[fn].values if tdf is None else tdf if isinstance(tdf, np.ndarray) else tdf[fn].values
                    leaf = np.asarray(obj.apply(arr)).reshape(m, -1)
                for i in [0, 99, 100, m - 1] if long else range(min(m, 4 if sampled else 99)):
                    asks.append(dict(x=tests[i], eff=[thousandths(v) for v in eff[i]], all=[], leaf=[int(v) + 1 for v in leaf[i]] if len(leaf) else []))
            imp = [0 if v == 0 else 1 for v in np.asarray(obj.feature_importance, dtype=float).reshape(-1)]
            ev = dict(base, trees=trees, asks=asks, imp=imp, raised='' if len(imp) == nf else 'importance')
        except Exception as x:
            ev = dict(base, raised=type(x).__name__ + ' ' + str(x)[:60])
        evs.append(dict(ev, kept=same(before, df)))
    return evs


def cf(seed):
    from ylearn.estimator_model import CausalForest
    rnd = random.Random(seed)
    evs = []
    fold = rnd.choice([1, 1, 2, 3])
    more = rnd.random() < .3
    sampled = rnd.random() < .3
    obj = None
    for turn in range(rnd.choice([1, 1, 2])):
        s = Study(rnd, n_treat=1, D=1, w=rnd.randint(0, 1), v=rnd.choice([1, 2]), per_arm=3 if fold > 1 else 2, ymax=1, fmax=rnd.choice([1, 2]), folds=fold,
                  n=rnd.choice([None, 5, 6]) if sampled else None)
        n, A = s.n, len(s.combos)
        if sampled and n > 6:
            break
        nv = len(s.V) * (2 if more else 1)
        if obj is None:
            kw, lim, by, num, held, B = options(rnd, n, sampled, nv, False)
            if more:
                kw['covariate_transformer'] = More()
            if rnd.random() < .3:
                kw['adjustment_transformer'] = More()
            obj = CausalForest(Prob(), Sum(), cf_fold=fold, is_discrete_treatment=True, **kw)
            n0 = n
        elif n != n0 or len(s.combos) != A:
            break
        ctrl = ()
        fkw = {}
        if rnd.random() < .5:
            ctrl = rnd.choice(s.combos)
            fkw['control'] = s.label(ctrl)
        place = s.combos.index(ctrl) + 1 if ctrl else 1
        before = s.data.copy()
        base = dict(k='cf', rows=s.rows_vx(), lim=lim, by=by, num=num, held=held, count=B, u=8, ctrl=place, fold=fold, more=more, trees=[], asks=[], imp=[],
                    _tag=f'{seed}/{turn}', _class=f"causal forest{word(lim, by, num, held, n, kw)}{' three arms' if A > 2 else ''}{' control' if ctrl else ''}"
                                                  f"{' folds' if fold > 1 else ''}{' refitted' if turn else ''}")
        for r in base['rows']:
            r['y'] = list(r['y'])
        ok, r = attempt(obj.fit, s.data, **s.roles(), **fkw)
        if not ok:
            evs.append(dict(base, raised=r, kept=same(before, s.data)))
            break
        try:
            cols = [(c, 0, 1) for c in range(nv)]
            trees = [nodes(t.tree_, cols) for t in obj.yx_model.estimators_]
            for t in trees:
                for k in t:
                    del k['val'], k['w']
            asks = []
            for _ in range(rnd.choice([1, 2])):
                own = rnd.random() < .3
                m = n if own else rnd.choice([1, 2, 3, 103])
                df, f = (None, [a + b for a, b in zip(s.fw, s.fv)]) if own else s.test(m)
                if not own and rnd.random() < .3:
                    df = df[s.V + ['zzz']]
                keep = None if own else df.copy()
                eff = matrix(obj.estimate(df), m, A - 1)
                full = matrix(obj.effect_nji(df), m, A) if rnd.random() < .7 else None
                if not own and not same(keep, df):
                    eff[:] = np.nan
                for i in [0, 99, 100, m - 1] if m > 100 else range(min(m, 4 if sampled else 99)):
                    v = f[i][len(s.W):]
                    x = v + [2 * a + 1 for a in v] if more else v
                    asks.append(dict(x=[2 * a for a in x], eff=[thousandths(v) for v in eff[i]], all=[] if full is None else [thousandths(v) for v in full[i]], leaf=[]))
            imp = [0 if v == 0 else 1 for v in np.asarray(obj.feature_importance, dtype=float).reshape(-1)]
            ev = dict(base, trees=trees, asks=asks, imp=imp, raised='' if len(imp) == nv else 'importance')
        except Exception as x:
            ev = dict(base, raised=type(x).__name__ + ' ' + str(x)[:60])
        evs.append(dict(ev, kept=same(before, s.data)))
    return evs


def study(seed):
    return cf(seed) if seed % 3 == 0 else grf(seed)


def corrupt(e):
    if e['raised'] or not e['asks'] or e['u'] != 1 or e['num'] < len(e['rows']) or e['held'] or abs(e['asks'][-1]['eff'][0]) < 200:
        return None
    e['asks'][-1]['eff'][0] *= 2
    return e


def run():
    c = Check('C16', ['samples of up to 11 rows, up to 6 where rows are drawn or held out', 'one outcome, no sample weights',
                      'with several treatments or on top of residuals only the limits bind the splits'])
    c.model('MC_Forest', 'MC_Forest3.cfg' if thorough() else None)
    n = 9000 if thorough() else 900
    evs = [e for l in pmap(study, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Forest', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

"""C15: causal trees and forests of causal trees"""
from trees import *


def study(seed):
    from ylearn.estimator_model.causal_tree import CausalTree, CTCausalForest
    rnd = random.Random(seed)
    forest = rnd.random() < .4
    evs = []
    obj = None
    n0 = None
    for turn in range(rnd.choice([1, 1, 2])):
        sampled = rnd.random() < .55 if obj is None else sampled
        n = rnd.randint(5, 8) if sampled else rnd.choice([3, 4, 5, 6, 8, 10, 12, 14])
        lev = rnd.choice([1, 2, 3, 5])
        nw, nv = rnd.choice([(0, 1), (0, 2), (1, 0), (1, 1), (2, 1), (1, 2)])
        nf = nw + nv
        nt = rnd.choice([1, 1, 1, 2])
        ks = [rnd.choice([2, 2, 3]) for _ in range(nt)]
        lab = rnd.choice([[0, 1, 2], [1, 2, 5], [-3, 0, 4], [10, 9, 100]] if forest else [l for l in LABELS if len(l) == 3])
        labels = [sorted(lab)[:k] for k in ks]
        cats = 'auto'
        if rnd.random() < .2 and not forest and all(isinstance(v, int) for v in lab):  # numbers have to be sorted
            cats = [list(l) for l in labels]
        treat, control = [1] * nt, [0] * nt
        kw_fit = {}
        if rnd.random() < .5:
            while True:
                treat, control = ([rnd.randrange(k) for k in ks] for _ in range(2))
                if treat != control:
                    break
            wrap = lambda c: labels[0][c[0]] if nt == 1 and rnd.random() < .5 else rnd.choice([list, tuple])([l[j] for l, j in zip(labels, c)])
            kw_fit = dict(treat=wrap(treat), control=wrap(control))
        xs = [[2 * rnd.randint(0, lev) for _ in range(nf)] for _ in range(n)]
        ts = [1, 0] + [rnd.randint(0, 1) for _ in range(n - 2)]
        ys = [rnd.randint(-3, 3) for _ in range(n)]
        x = rnd.random()
        if x < .4:  # something to find
            ys = [(2 if xx[0] > lev else -1) * t + rnd.randint(-1, 1) for xx, t in zip(xs, ts)]
        elif x < .5:  # nothing to find
            ys = [2 * t for t in ts]
        rnd.shuffle(ts)
        arms = [treat if t else control for t in ts]
        # rows of other groups do not count
        others = [[rnd.randrange(k) for k in ks] for _ in range(rnd.choice([0, 0, 2, 4]))]
        others = [a for a in others if a != treat and a != control]
        must = [[c if j == i else 0 for i in range(nt)] for j in range(nt) for c in range(ks[j])]  # every label shows up
        for a in must:
            if any(all(b[j] != a[j] for b in arms + others) for j in range(nt)):
                if a == treat or a == control:
                    break
                others.append(a)
        allx, ally, alla = xs + [[2 * rnd.randint(0, lev) for _ in range(nf)] for _ in others], ys + [rnd.randint(-9, 9) for _ in others], arms + others
        if any({a[j] for a in alla} != set(range(ks[j])) for j in range(nt)):
            continue
        place = list(range(len(allx)))
        rnd.shuffle(place)
        mixed = bool(others) and forest
        if others and sampled and not forest:
            continue  # how many of a mixture are held out is not judged
        if mixed and sampled and len(allx) > 9:
            continue
        if obj is None:
            lim, kw = limits(rnd, n)
            if rnd.random() < .3:
                q = rnd.choice([1, 2, 4, 8, 20])
                kw['min_impurity_decrease'], lim['decrease'] = q / 4, [1000 * q, 4]
            how = 'best'
            z = rnd.random()
            if z < .08 and not forest:
                kw['splitter'], how = 'random', 'any'
            elif z < .2:
                kw['max_features'], how = rnd.choice([1, 'sqrt', .5] if not forest else [1, .5]), 'feature'
            held, num = 0, n
            if sampled:
                if forest:
                    z = rnd.choice([None, 'int', 'float', 'all'])
                    if z == 'int':
                        num = rnd.randint(4, len(allx))
                        kw['sub_sample_num'] = num
                    elif z == 'float':
                        kw['sub_sample_num'] = rnd.choice([.5, .75, .9])
                    elif z == 'all':
                        kw['sub_sample_num'] = len(allx)
                if not forest or rnd.random() < .5 and not mixed:
                    kw['honest_subsample_num'] = rnd.choice([1, 2, 3, .25, .5])
            elif forest:
                kw['sub_sample_num'] = 1.0
            if forest:
                kw['n_estimators'] = rnd.choice([1, 2, 3])
                kw['n_jobs'] = rnd.choice([None, 1, 2])
            if rnd.random() < .6:
                kw['random_state'] = rnd.randint(0, 99)
            obj = (CTCausalForest if forest else CausalTree)(**kw, **({} if forest else dict(categories=cats)))
            lim_of = lim
        elif cats != 'auto' or isinstance(getattr(obj, 'categories', 'auto'), list):
            break
        lim = dict(lim_of)
        num, total = n, len(allx) if forest else n
        if forest:
            z = kw.get('sub_sample_num')
            num = round(.85 * total) if z is None else z if isinstance(z, int) else round(total * z)
            if num > total or mixed and (num <= len(others) or any(isinstance(v, float) for k, v in kw.items() if k.startswith('min_samples') or k == 'honest_subsample_num')):
                break
        for a in ('leaf', 'split'):
            z = kw.get('min_samples_' + a)
            if isinstance(z, float):
                lim[a] = max(2 if a == 'split' else 1, math.ceil(z * num))
        z = kw.get('honest_subsample_num')
        held = 0 if z is None else z if isinstance(z, int) else math.ceil(z * num - 1e-9)
        if held >= num - 1 or num < 2:
            continue
        if nf == 1 and how == 'feature':
            hw = 'best'
        else:
            hw = how
        fn = rnd.choice([['v1', 'v2', 'v3'], ['b', 'a', 'c'], ['x 1', 'x0', 'x']])[:nf]
        cols = [(c, rnd.choice([0, 0, -3, 100]), rnd.choice([1, .5, 10])) for c in fn]
        s = dict(cols=cols)
        df = frame(rnd, s, [allx[i] for i in place])
        tn = ['treat', 'arm'][:nt]
        for j, c in enumerate(tn):
            df[c] = [labels[j][alla[i][j]] for i in place]
        df['y'] = [ally[i] for i in place]
        if rnd.random() < .5:
            df['y'] = df['y'].astype(float)
        df = dress(rnd, df)
        one = lambda l: l[0] if len(l) == 1 and rnd.random() < .5 else list(l)
        W, V = fn[:nw], fn[nw:]
        roles = dict(adjustment=one(W) if W else None, covariate=one(V) if V else None)
        roles = {k: v for k, v in roles.items() if v is not None or rnd.random() < .5}
        before = df.copy()
        ids = [i for i in place if i < total]
        rows = [dict(x=allx[i], t=ts[i] if i < n else 2, y=ally[i]) for i in ids]
        base = dict(k='causal', rows=rows, lim=lim, how=hw, num=num, held=held, count=kw.get('n_estimators', 1), trees=[], asks=[], means=[], depth=-1, leaves=-1,
                    imp=[], _tag=f'{seed}/{turn}',
                    _class=f"{'forest' if forest else 'tree'}{' sampled' if num < total else ''}{' mixed' if mixed else ''}{' honest' if held else ''}{' ' + hw if hw != 'best' else ''}"
                           f"{' chosen arms' if kw_fit else ''}{' two treatments' if nt > 1 else ''}{' refitted' if turn else ''}")
        ok, r = attempt(obj.fit, df, 'y', one(tn), **roles, **kw_fit)
        if not ok:
            evs.append(dict(base, raised=r, kept=same(before, df)))
            break
        tests = [[rnd.randint(-1, 2 * lev + 1) for _ in fn] for _ in range(rnd.randint(1, 4))]
        tdf = dress(rnd, frame(rnd, s, tests))
        try:
            ev = dict(base, raised='', **read(rnd, obj, forest, cols, df, [allx[i] for i in place], tdf, tests, [allx[i] for i in ids], held))
        except Exception as x:
            ev = dict(base, raised=type(x).__name__ + ' ' + str(x)[:60])
        evs.append(dict(ev, kept=same(before, df)))
    return evs


def read(rnd, obj, forest, cols, df, own, tdf, tests, fitted, held):
    trees = list(obj.estimators_) if forest else [obj]
    out = dict(trees=[nodes(t.tree_, cols) for t in trees], asks=[], means=[])
    for data, xs in ((df, own), (tdf, tests), (None, own if forest else fitted)):
        n = len(xs)
        if rnd.random() < .2:
            continue
        eff = matrix(obj.estimate(data), n, 1)[:, 0] if rnd.random() < .5 else matrix(obj.estimate(data=data), n, 1)[:, 0]
        nji = [[]] * n
        leaf, path = [0] * n, [[]] * n
        if not forest:  # a forest has no effect_nji
            nji = np.asarray(obj.effect_nji(data), dtype=float)
            nji = nji.reshape(n, 2) if nji.shape == (n, 1, 2) else np.full((n, 1), np.nan)
            leaf = [int(i) + 1 for i in np.asarray(obj.apply(data=data)).reshape(-1)]
            p = obj.decision_path(data=data)
            path = [sorted(int(j) + 1 for j in p[i].nonzero()[1]) for i in range(n)]
            for q in ('ATE', 'CATE'):
                m = np.asarray(obj.estimate(data, quantity=q), dtype=float).reshape(-1)
                out['means'].append(dict(eff=[sc(v) for v in eff], mean=sc(m[0]) if m.size == 1 else BIG))
        for i in range(n):
            out['asks'].append(dict(x=xs[i], eff=sc(eff[i]), nji=[sc(v) for v in nji[i]], leaf=leaf[i], path=path[i]))
    if not forest:
        out.update(depth=int(obj.get_depth()), leaves=int(obj.get_n_leaves()))
        if not held:
            out.update(imp=[sc(v) for v in obj.feature_importance])
    return out


def corrupt(e):
    if e['raised'] or not e['asks']:
        return None
    e['asks'][-1]['eff'] += 300
    return e


def run():
    c = Check('C15', ['samples of up to 14 rows, up to 8 where rows are drawn or held out',
                      'one outcome; with random splits or features only the limits and the effects are judged'])
    c.model('MC_CausalTree', 'MC_CausalTree5.cfg' if thorough() else None)
    n = 12000 if thorough() else 1000
    evs = [e for l in pmap(study, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Causal', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

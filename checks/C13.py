"""C13: curves and scores of uplift"""
from estimators import *

U = 5040
PAIRS = [(1, 0), (0, 1), (2, 1), ('t', 'c'), ('no', 'yes'), (True, False), (0.5, -1.5), (10, 9)]


def ints(a, scale):
    out = []
    for x in np.asarray(a, dtype=float).reshape(-1):
        v = x * scale
        out.append(int(round(v)) if np.isfinite(v) and abs(v - round(v)) < 1e-4 * max(1, abs(v) * 1e-4) and abs(v) < BIG else BIG)
    return out


def near(x, scale):
    v = float(x) * scale
    return int(round(v)) if np.isfinite(v) and abs(v) < BIG else BIG


def end(rows, fn, te):
    from fractions import Fraction as F
    n = len(rows)
    T, C = [r for r in rows if r['t'] == 1], [r for r in rows if r['t'] == 0]
    if te:
        s = sum(r['e'] for r in rows)
        return {'lift': F(s, n), 'gain': F(s), 'qini': F(s * len(T), n)}[fn]
    if not T or not C:
        return F(0)
    lift = F(sum(r['y'] for r in T), len(T)) - F(sum(r['y'] for r in C), len(C))
    return {'lift': lift, 'gain': lift * n, 'qini': lift * len(T)}[fn]


def study(seed):
    from ylearn import uplift as up
    from ylearn.uplift import _metric as me
    rnd = random.Random(seed)
    np.random.seed(seed % 2 ** 31)
    n = rnd.choice([2, 3, 4, 4, 5, 5, 6, 7, 8])
    treat, control = rnd.choice(PAIRS)
    third = {'t': 'x', 'no': 'maybe'}.get(treat, 7)
    te = rnd.random() < .4
    ymax = rnd.choice([1, 1, 3])
    rows = [dict(y=rnd.randint(-ymax if rnd.random() < .4 else 0, ymax), t=rnd.randint(0, 1), e=rnd.randint(-3, 3)) for _ in range(n)]
    odd = rnd.random() < .08
    if odd:
        if rnd.random() < .5 and not isinstance(treat, bool):
            rows[rnd.randrange(n)]['t'] = 2
        else:
            t = rnd.randint(0, 1)
            for r in rows:
                r['t'] = t
    elif len({r['t'] for r in rows}) == 1:
        rows[rnd.randrange(n)]['t'] ^= 1
    ncol = rnd.choice([1, 1, 2, 3])
    cols, vals = [], []
    for _ in range(ncol):
        while True:
            levels = rnd.choice([n, n, n, max(2, n // 2)])
            ranks = list(range(n)) if levels == n else [rnd.randrange(levels) for _ in range(n)]
            rnd.shuffle(ranks)
            sizes = [ranks.count(q) for q in set(ranks)]
            if max(sizes) <= 3 and sum(z > 1 for z in sizes) <= 2:
                break
        cols.append(ranks)
        off = rnd.choice([0, 0.5, -n / 2, -n, 1e3])
        step = rnd.choice([1, 0.125, 10])
        vals.append([off + step * q for q in ranks])
    names = rnd.choice([['y', 'x', 'te'], ['outcome', 'treatment', 'effect'], ['b', 'a', 'c']])
    scorenames = rnd.sample(['m', 'slearner', 'A', 'zz', 'score 1', 'RANDOM2'], ncol)
    df = pd.DataFrame({s: v for s, v in zip(scorenames, vals)})
    df[names[0]] = [r['y'] for r in rows]
    df[names[1]] = pd.Series([{1: treat, 0: control, 2: third}[r['t']] for r in rows])
    noy = te and rnd.random() < .2
    if te:
        df[names[2]] = [r['e'] for r in rows]
        if noy:
            df = df.drop(columns=names[0])
    order = list(df.columns)
    rnd.shuffle(order)
    df = df[order]
    idx = rnd.choice([None, None, 'shuffled', 'strings', 'same'])
    if idx == 'shuffled':
        df.index = rnd.sample(range(n), n)
    elif idx == 'strings':
        df.index = [f'i{i}' for i in rnd.sample(range(n), n)]
    elif idx == 'same':
        df.index = [0] * n
    scorecols = [c for c in df.columns if c in scorenames]
    perm = [scorenames.index(c) for c in scorecols]
    opts = dict(outcome=None if noy else names[0], treatment=names[1])
    if te:
        opts['true_effect'] = names[2]
    if (treat, control) != (1, 0) or rnd.random() < .5:
        opts.update(treat=treat, control=control)
    use = perm[:]
    base = dict(rows=rows, te=te, cols=[cols[c] for c in use])
    before = df.copy()
    evs = []

    def emit(k, fn, norm, ok, curve=None, tops=None, rand=None, raised='', tag=''):
        e = end(rows, fn, te)
        scale = (abs(e) * U) if norm else U
        ev = dict(base, k=k, fn=fn, norm=norm, scale=int(scale), out=[], tops=[], rand=[], raised=raised, kept=same(before, df), _seed=seed,
                  _class=f"{fn}{' true effect' if te else ''}{' normalised' if norm else ''}{' ' + tag if tag else ''}{' odd' if odd else ''}")
        if ok:
            try:
                mult = 1
                if k == 'score':
                    mult = n + 1
                    conv = near if fn == 'qini' else (lambda x, s: ints([x], s)[0])
                    if curve is not None:
                        ev['out'] = [conv(curve[s], float(scale) * mult) for s in scorecols]
                    if rand is not None:
                        ev['rand'] = [near(rand, float(scale) * mult)]
                else:
                    if curve is not None:
                        if list(curve.index) != list(range(n + 1)):
                            ev['raised'] = 'index'
                        ev['out'] = [ints(curve[s], float(scale)) for s in scorecols]
                    if tops is not None:
                        ev['tops'] = [({v: q for v, q in zip(vals[c], cols[c])}).get(float(tops[s]), 999) for s, c in zip(scorecols, perm)]
                    if rand is not None:
                        ev['rand'] = [near(x, float(scale)) for x in rand]
            except Exception as x:
                ev['raised'] = type(x).__name__
        evs.append(ev)
    rn = rnd.choice(['RANDOM', 'RANDOM', None, 'rnd'])
    if rnd.random() < .5:
        for fn in ('lift', 'gain', 'qini'):
            f = dict(lift=me.get_cumlift, gain=me.get_gain, qini=me.get_qini)[fn]
            norm = fn != 'lift' and rnd.random() < .5 and end(rows, fn, te) != 0
            o = dict(opts, random_name=rn)
            if fn != 'lift':
                o['normalize'] = norm
                if rnd.random() < .5:
                    o['return_top_point'] = True
            ok, r = attempt(f, df, **o)
            tops = None
            if ok and o.get('return_top_point'):
                r, tops = r
            emit('curve', fn, norm, ok, curve=r if ok else None, tops=tops, rand=r[rn] if ok and rn else None, raised='' if ok else r)
        if end(rows, 'gain', te) != 0:
            for fn, f in (('gain', me.gain_top_point), ('qini', me.qini_top_point)):
                ok, r = attempt(f, df, **opts)
                emit('curve', fn, False, ok, tops=r if ok else None, raised='' if ok else r, tag='top')
        for fn, f in (('gain', me.auuc_score), ('qini', me.qini_score)):
            norm = end(rows, fn, te) != 0 and rnd.random() < .7
            ok, r = attempt(f, df, normalize=norm, random_name=rn, **opts)
            emit('score', fn, norm, ok, curve=r if ok else None, raised='' if ok else r,
                 rand=r[rn] if ok and rn and fn == 'qini' else None)
    else:
        m = up.UpliftModel()
        if rnd.random() < .3:   # an earlier fit on other data
            d2 = pd.DataFrame({'q': [3., 1., 2.], 'y': [1, 0, 2], 'x': [1, 0, 1]})
            attempt(m.fit, d2)
        ok, r = attempt(m.fit, df, random=rn, **opts)
        if not ok:
            emit('curve', 'qini', False, False, raised=r, tag='model')
            return evs
        if rnd.random() < .3:   # what is handed out or given in is not shared with the model
            for f in (m.get_cumlift, m.get_gain, m.get_qini, m.gain_top_point, m.qini_top_point, m.auuc_score, m.qini_score):
                x = f()
                x.iloc[:] = -77
        for fn in rnd.sample(['lift', 'gain', 'qini', 'gain', 'qini'], 3):
            norm = fn != 'lift' and rnd.random() < .5 and end(rows, fn, te) != 0
            if fn == 'lift':
                ok, r = attempt(m.get_cumlift)
            else:
                ok, r = attempt(getattr(m, 'get_' + fn), **(dict(normalize=norm) if norm or rnd.random() < .5 else {}))
            emit('curve', fn, norm, ok, curve=r if ok else None, rand=r[rn] if ok and rn else None, raised='' if ok else r, tag='model')
        for fn in ('gain', 'qini'):
            f = getattr(m, fn + '_top_point')
            if rnd.random() < .5:
                ok, r = attempt(f)
                if ok and sorted(r.index) != sorted(scorecols):
                    ok, r = False, 'columns'
            else:
                ok, r = attempt(lambda: {s: f(s) for s in scorecols})
            emit('curve', fn, False, ok, tops=r if ok else None, raised='' if ok else r, tag='model top')
        for fn, meth in (('gain', 'auuc_score'), ('qini', 'qini_score')):
            if end(rows, fn, te) == 0:
                continue
            f = getattr(m, meth)
            if rnd.random() < .5:
                ok, r = attempt(f)
                if ok and sorted(r.index) != sorted(scorecols):
                    ok, r = False, 'columns'
            else:
                ok, r = attempt(lambda: {s: f(s) for s in scorecols})
            emit('score', fn, True, ok, curve=r if ok else None, raised='' if ok else r, tag='model')
    return evs


def corrupt(e):
    if e['raised'] or not e['out']:
        return None
    if e['k'] == 'score':
        if e['fn'] == 'qini' and len(e['cols']) < 2:
            return None
        e['out'][0] += 3
    else:
        e['out'][0][len(e['rows']) // 2 + 1] += 2
    return e


def run():
    c = Check('C13', ['up to 8 individuals with small whole outcomes, so that every value is exact; the random baseline is judged by the range of all '
                      'orders, its end and its use, not its distribution; drawing is not judged'])
    c.model('MC_Uplift', 'MC_Uplift4.cfg' if thorough() else None)
    n = 6000 if thorough() else 500
    evs = [e for l in pmap(study, range(SEED * 100000, SEED * 100000 + n), chunksize=10) for e in l]
    c.judge('Trace_Uplift', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

"""trees grown over integer features, shared by the checks of trees and forests"""
from estimators import *

NO = dict(leaf=1, split=2, depth=0, leaves=0, weight=[0, 1], decrease=[0, 1])


def limits(rnd, n):
    """limits of a tree of n rows, and the options which set them"""
    lim = {a: list(b) if isinstance(b, list) else b for a, b in NO.items()}
    kw = {}
    if rnd.random() < .3:
        kw['max_depth'] = lim['depth'] = rnd.randint(1, 3)
    if rnd.random() < .3:
        if rnd.random() < .6:
            kw['min_samples_leaf'] = lim['leaf'] = rnd.randint(1, 3)
        else:
            f = rnd.choice([.125, .25, .375])
            kw['min_samples_leaf'], lim['leaf'] = f, math.ceil(f * n)
    if rnd.random() < .25:
        if rnd.random() < .6:
            kw['min_samples_split'] = lim['split'] = rnd.randint(2, 6)
        else:
            f = rnd.choice([.125, .25, .5, .75, 1.])
            kw['min_samples_split'], lim['split'] = f, max(2, math.ceil(f * n))
    return lim, kw


def frame(rnd, s, xs, extra=True):
    """the frame for doubled codes xs"""
    d = {c: [off + step * x[j] / 2 for x in xs] for j, (c, off, step) in enumerate(s['cols'])}
    df = pd.DataFrame(d)
    if extra:
        df['zzz'] = 3.5
    return df


def dress(rnd, df):
    cols = list(df.columns)
    rnd.shuffle(cols)
    df = df[cols].copy()
    x = rnd.random()
    if x < .3:
        df.index = rnd.sample(range(100, 200 if len(df) <= 100 else 1000), len(df))
    elif x < .5:
        df.index = [7] * len(df)
    return df


def code(v, off, step):
    return int(math.floor(2 * (v - off) / step + 1e-9))


def sc(v):
    return BIG if not np.isfinite(v) or abs(v) > 1e5 else int(round(float(v) * 10000))


def matrix(a, n, K):
    a = np.asarray(a, dtype=float)
    return a.reshape(n, K) if a.size == n * K else np.full((n, K), np.nan)


def ask(x, **kw):
    return dict(dict(x=x, leaf=0, path=[], eff=[], ind=0, conds=[], rec=0, val=0), **kw)


def nodes(t, cols):
    """the nodes of a fitted tree; thresholds between doubled codes"""
    T = []
    for j in range(t.node_count):
        l, r, f = int(t.children_left[j]), int(t.children_right[j]), int(t.feature[j])
        leaf = l < 0
        T.append(dict(l=0 if leaf else l + 1, r=0 if leaf else r + 1, f=0 if leaf else f + 1, thr=0 if leaf else code(float(t.threshold[j]), *cols[f][1:]),
                      val=[sc(v) for v in np.asarray(t.value[j]).reshape(-1)], n=int(t.n_node_samples[j]), w=exact(t.weighted_n_node_samples[j], 1)))
    return T

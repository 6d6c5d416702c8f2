"""C20: Bayesian networks: graphs, codes, interventions, samples, predictions and effects"""
import contextlib
import io
import random

import numpy as np
import pandas as pd

from vp import *

NONE, BIG = 999999, 2 ** 31 - 1
NAMES = ['a', 'b', 'x', 'y', 't', 'w', 'z1', 'z2', 'income', 'Age', 'k']


def milli(v):
    v = float(v)
    return int(round(v * 1000)) if abs(v) < 1e6 else BIG


def dag(rnd, n, tree, line=False):
    order = list(range(1, n + 1))
    rnd.shuffle(order)
    E = set()
    for j in range(1, n):
        ps = {i for i in range(j) if rnd.random() < .35} if not line else {j - 1}
        if tree and not ps:
            ps = {rnd.randrange(j)}
        E |= {(order[i], order[j]) for i in ps}
    return sorted(E)


# ---------------------------------------------------------------- graphs
def graphs(seed):
    import networkx as nx
    from ylearn.bayesian import DAG
    from ylearn.causal_model import CausalGraph
    rnd = random.Random(seed)
    n = rnd.choice([1, 2, 3, 4, 5, 5, 6, 6, 7])
    names = sorted(rnd.sample(NAMES, n))
    E = dag(rnd, n, rnd.random() < .75)
    if rnd.random() < .2 and n > 1:
        E = sorted(set(E) | {tuple(rnd.sample(range(1, n + 1), 2))})
    rnd.shuffle(E)
    linked = {v for p in E for v in p}
    form = rnd.choice(['edges', 'frame', 'nx', 'causal'] if len(linked) == n else ['frame', 'nx', 'causal'])
    label = lambda v: names[v - 1]
    pairs = [(label(a), label(b)) for a, b in E]
    shown = rnd.sample(names, n)
    number = {s: i + 1 for i, s in enumerate(names)}

    def make():
        if form == 'edges':
            return DAG(pairs)
        if form == 'frame':
            f = pd.DataFrame(0, index=shown, columns=shown)
            for a, b in pairs:
                f.loc[a, b] = 1
            return DAG(f)
        if form == 'nx':
            g = nx.DiGraph()
            g.add_nodes_from(shown)
            g.add_edges_from(pairs)
            return DAG(g)
        return DAG(CausalGraph({c: [a for a, b in pairs if b == c] for c in shown}))
    e = dict(k='graph', V=list(range(1, n + 1)), E=[list(p) for p in E], form=form, raised='', _tag=str(seed))
    ok, g = attempt(make)
    e['accepted'] = bool(ok)
    e['_class'] = f"graph {form} {'accepted' if ok else 'refused'}"
    if not ok:
        return [e]

    def go():
        no = lambda s: [number[x] for x in s]
        e['nodes'] = no(g.get_nodes())
        e['edges'] = [no(p) for p in g.get_edges()]
        e['parents'] = [no(g.get_parents(x)) for x in names]
        e['children'] = [no(g.get_children(x)) for x in names]
        e['topo'] = no(rnd.choice([lambda: list(g.topo_sorted_nodes), lambda: g.get_nodes(topo_sorted=True), lambda: g.sort_nodes(rnd.sample(names, n), topo_sorted=True)])())
        e['asks'] = []
        for _ in range(20):
            of = rnd.sample(names, rnd.randint(1, n))
            kind, self_, topo = rnd.choice(['markov', 'markov', 'upstream', 'downstream']), rnd.random() < .5, rnd.random() < .4
            arg = of[0] if len(of) == 1 and rnd.random() < .5 else of
            if rnd.random() < .6:
                got = g.get_blanket(arg, kind=kind, return_self=self_, topo_sorted=topo)
            else:
                got = getattr(g, f'get_{kind}_blanket')(arg, return_self=self_, topo_sorted=topo)
            e['asks'].append(dict(of=no(of), kind=kind, self=self_, topo=topo, got=no(got)))
        before = set(g.edges)
        attempt(lambda: g.add_edge(names[0], 'other'))
        attempt(lambda: g.remove_node(names[0]))
        e['frozen'] = bool(set(g.edges) == before and set(g.nodes) == set(names))
    ok, r = attempt(go)
    if not ok:
        e['raised'] = r
    return [e]


# ---------------------------------------------------------------- codes
def codec(seed):
    from ylearn.bayesian import DataLoader
    rnd = random.Random(seed)
    n = rnd.randint(3, 9)
    kind = rnd.choice(['float', 'int', 'text', 'bool', 'category'])
    pool = sorted(rnd.sample(range(-5, 30), 5))
    words = sorted(rnd.sample(['p', 'q', 'no', 'yes', 'B', 'zz', '10', '9'], 5))
    if kind == 'bool':
        pool = [0, 1]
    fit = [rnd.choice(pool[:4]) for _ in range(n - 2)] + pool[:2]
    new = [rnd.choice(pool if rnd.random() < .2 else fit) for _ in range(rnd.randint(1, 6))]

    def show(v):
        s = {'text': lambda x: words[pool.index(x)], 'bool': bool, 'float': float}.get(kind, lambda x: x)
        r = pd.Series([s(x) for x in v])
        return r.astype('category') if kind == 'category' else r
    rank = lambda v: words.index(v) + 1 if kind == 'text' else int(v)
    cells = [rank(show([x])[0]) for x in fit]
    e = dict(k='codec', kind=kind, cells=cells, new=[rank(show([x])[0]) for x in new], cat=kind != 'float', raised='', _tag=str(seed), _class=f'codec {kind}')

    def go():
        st = DataLoader(data=pd.DataFrame({'c': show(fit), 'd': 1.})).state['c']
        e['category'] = hasattr(st, 'classes')
        if e['category']:
            e['classes'], e['binary'] = [rank(x) for x in st.classes], bool(st.is_binary)
            known = pd.DataFrame({'c': show(new)})
            ok, t = attempt(lambda: DataLoader(dict(c=st)).spread(known)['c'].numpy())
            e['refused'] = not ok
            e['codes'] = [int(x) for x in t] if ok else []
            e['back'] = [rank(x) for x in st.decode(t)] if ok else []
        else:
            m = len(fit)
            e['sum'], e['min'], e['max'] = int(round(float(st.mean) * m)), int(st.min), int(st.max)
            e['var'] = int(round(float(st.scale) ** 2 * m * (m - 1)))
            t = DataLoader(dict(c=st)).spread(pd.DataFrame({'c': show(new)}))['c'].numpy()
            e['codes'], e['back'] = [int(x) for x in t], [int(x) for x in st.decode(t)]
    ok, r = attempt(go)
    if not ok:
        e['raised'] = r
    return [e]


# ---------------------------------------------------------------- networks
class Net:
    """a random graph, columns and point-like distributions of its nodes"""

    def __init__(self, rnd, n=None):
        self.rnd = rnd
        self.n = n = n or rnd.choice([2, 3, 4, 5, 5, 6])
        self.names = sorted(rnd.sample(NAMES, n))
        self.E = dag(rnd, n, True, n > 3 and rnd.random() < .3)
        self.kind = [rnd.choice(['num', 'num', 'cat']) for _ in range(n)]
        self.labels, self.k, self.bias, self.w = [], [], [], []
        self.pa = [sorted(a for a, b in self.E if b == v) for v in range(1, n + 1)]
        for i in range(n):
            k = rnd.randint(2, 3) if self.kind[i] == 'cat' else 0
            how = rnd.choice(['int', 'text', 'bool'])
            self.labels.append(None if not k else [False, True] if how == 'bool' and k == 2 else sorted(rnd.sample(range(-3, 12), k)) if how == 'int'
                               else sorted(rnd.sample(['low', 'mid', 'up', 'B', 'no'], k)))
            self.k.append(k)
            self.bias.append(rnd.randint(-3, 3) or 4 if not k else 0)
            rows = max(1, len(self.pa[i]))
            if k:
                self.w.append([rnd.sample([60 * j for j in range(-4, 5)], k) for _ in range(rows)])
            else:
                self.w.append([[rnd.choice([-3, -2, -1, 1, 2, 3])] for _ in range(rows)])

    def pairs(self):
        E = [(self.names[a - 1], self.names[b - 1]) for a, b in self.E]
        self.rnd.shuffle(E)
        return E

    def public(self):
        return dict(kind=self.kind, k=self.k, pa=self.pa, bias=self.bias, w=self.w)

    def params(self):
        import torch
        P = {}
        for i, c in enumerate(self.names):
            w = torch.tensor(self.w[i], dtype=torch.float32)
            if self.k[i]:
                P[f'{c}__weight'] = w if self.pa[i] else torch.softmax(w[0], 0)
            elif self.pa[i]:
                P[f'{c}__weight'], P[f'{c}__bias'], P[f'{c}__scale'] = w, torch.tensor(float(self.bias[i])), torch.tensor(1e-12)
            else:
                P[f'{c}__mean'], P[f'{c}__scale'] = torch.tensor(float(self.bias[i])), torch.tensor(1e-12)
        return P

    def code(self, i, v):
        if v is None:
            return NONE
        if self.k[i]:
            v = v.item() if hasattr(v, 'item') else v
            return self.labels[i].index(v) if v in self.labels[i] else BIG
        return int(v) if float(v) == int(v) else BIG

    def draw(self, i):
        return self.rnd.choice(self.labels[i]) if self.k[i] else float(self.rnd.randint(-4, 4))

    def frame(self, m, nodes, extra=False):
        rnd = self.rnd
        d = pd.DataFrame({self.names[i]: pd.Series([self.draw(i) for _ in range(m)], dtype=object if self.k[i] and isinstance(self.labels[i][0], str) else None) for i in nodes})
        if extra:
            d['other'] = np.arange(m) * 1.
        d = d[rnd.sample(list(d.columns), d.shape[1])]
        d.index = rnd.choice([list(range(m)), rnd.sample(range(50, 50 + 2 * m), m), [f'r{i}' for i in range(m)], [7] * m])
        return d

    def train(self):
        m = 12
        d = self.frame(m, range(self.n), True)
        for i, c in enumerate(self.names):
            if self.k[i]:
                v = list(d[c])
                v[:self.k[i]] = self.rnd.sample(self.labels[i], self.k[i])
                d[c] = pd.Series(v, index=d.index, dtype=d[c].dtype)
        return d

    def rows(self, d, m):
        if d is None:
            return [[NONE] * self.n] * m
        return [[self.code(i, d[c].iloc[r]) if c in d.columns else NONE for i, c in enumerate(self.names)] for r in range(m)]


def exact(net, model):
    model.params_ = net.params()
    return model


def unequal(a, b):
    return not (a.equals(b) and a.index.equals(b.index) and list(a.columns) == list(b.columns))


def network(seed):
    from ylearn.bayesian import DAG, SviBayesianNetwork
    rnd = random.Random(seed)
    net = Net(rnd)
    n, names = net.n, net.names
    train = net.train()
    e = dict(k='network', net=net.public(), ops=[], raised='', _tag=str(seed))
    quick = dict(epochs=1, verbose=0)

    def fresh():
        m = SviBayesianNetwork(DAG(net.pairs()) if rnd.random() < .5 else net.pairs())
        return exact(net, m.fit(train, **quick))
    ok, m = attempt(fresh)
    if not ok:
        return [dict(e, raised=m, _class='network not fitted')]
    objs = [m]
    classes = set()

    def told():
        r = []
        for o in objs:
            iv = o.interventions
            r.append([net.code(i, iv[c]) if c in iv else NONE for i, c in enumerate(names)])
            if rnd.random() < .3:
                iv[names[0]] = net.draw(0)      # what is told is a copy
        return r

    def cells(frame, j, proba, i):
        c = names[i]
        if net.k[i] and proba:
            return [[milli(frame[f'{c}_{l}'].iloc[r]) for l in net.labels[i]] for r in range(len(frame))]
        if net.k[i]:
            return [[net.code(i, v)] for v in frame[c]]
        return [[milli(v)] for v in frame[c]]

    def table(frame, cols, proba):
        per = [cells(frame, j, proba, i - 1) for j, i in enumerate(cols)]
        return [[p[r] for p in per] for r in range(len(frame))]

    def columns(cols, proba):
        return [x for i in cols for x in ([f'{names[i - 1]}_{l}' for l in net.labels[i - 1]] if proba and net.k[i - 1] else [names[i - 1]])]

    for _ in range(rnd.randint(2, 6)):
        o = rnd.randrange(len(objs))
        m = objs[o]
        what = rnd.choice(['do', 'do', 'fit', 'sample', 'sample', 'predict', 'predict', 'predict', 'estimate', 'estimate', 'estimate'])
        rec = dict(op=what, obj=o + 1, raised='', kept=True)
        seen = [i for i in range(n) if rnd.random() < .6]
        size = rnd.randint(1, 4)
        seed_ = rnd.choice([None, 0, 3])
        if what == 'do':
            some = rnd.sample(range(n), n if rnd.random() < .1 else rnd.randint(1, min(2, n)))
            iv = {names[i]: net.draw(i) for i in some}
            copy = rec['copy'] = rnd.random() < .5
            rec['more'] = [net.code(i, iv.get(c)) for i, c in enumerate(names)]
            keep = dict(iv)
            d = net.frame(size, range(n)) if rnd.random() < .3 else None
            dk = d.copy() if d is not None else None
            bl = rnd.choice(['markov', 'upstream', 'downstream'])

            def go():
                r = m.do(iv, data=d, inplace=not copy, blanket=bl, random_state=seed_, **quick)
                if copy:
                    objs.append(r)
                exact(net, r)
                return r
            ok, r = attempt(go)
            rec['kept'] = bool(iv == keep and (d is None or not unequal(d, dk)) and (not ok or (r is m) != copy))
            classes.add('do copy' if copy else 'do')
        elif what == 'fit':
            copy = rec['copy'] = rnd.random() < .5
            keep = train.copy()

            def go():
                r = m.fit(train, inplace=not copy, random_state=seed_, **quick)
                if copy:
                    objs.append(r)
                exact(net, r)
                return r
            ok, r = attempt(go)
            rec['kept'] = bool(not unequal(keep, train) and (not ok or (r is m) != copy))
            classes.add('fit copy' if copy else 'fit')
        elif what == 'sample':
            d = net.frame(size, seen, rnd.random() < .3) if rnd.random() < .7 and seen else None
            keep = d.copy() if d is not None else None
            nodes = rnd.sample(range(1, n + 1), rnd.randint(1, n)) if rnd.random() < .4 else [rnd.randint(1, n)] if rnd.random() < .5 else []
            rec.update(rows=net.rows(d, size), nodes=nodes)

            def go():
                r = m.sample(d, n_samples=size if d is None else None, nodes=[names[i - 1] for i in nodes] or None, random_state=seed_)
                cols = [names.index(c) + 1 for c in r.columns]
                rec.update(cols=cols, out=table(r, cols, False), index=bool(d is None or r.index.equals(d.index)))
            ok, r = attempt(go)
            rec['kept'] = bool(d is None or not unequal(keep, d))
            classes.add(f"sample{' given data' if d is not None else ''}{' nodes' if nodes else ''}")
        elif what == 'predict':
            outs = rnd.sample(range(1, n + 1), 1 if rnd.random() < .6 else rnd.randint(1, min(n, 3)))
            seen = sorted(set(seen) | {rnd.choice([i for i in range(n) if i + 1 not in outs] or [0])})
            if all(i + 1 in outs for i in seen):
                continue
            d = net.frame(size, seen, rnd.random() < .3)
            keep = d.copy()
            proba = rnd.random() < .5
            rec.update(rows=net.rows(d, size), outs=outs, proba=proba)

            def go():
                arg = [names[i - 1] for i in outs]
                r = m.predict(d, outcome=arg[0] if len(arg) == 1 and rnd.random() < .5 else arg, proba=proba, num_samples=rnd.choice([1, 2, 3, 5]), random_state=seed_)
                rec.update(cols=outs if list(r.columns) == columns(outs, proba) else [0], out=table(r, outs, proba))
            ok, r = attempt(go)
            rec['kept'] = not unequal(keep, d)
            classes.add(f"predict{' proba' if proba else ''}")
        else:
            outs = rnd.sample(range(1, n + 1), 1 if rnd.random() < .7 or n < 3 else 2)
            rest = [i for i in range(1, n + 1) if i not in outs]
            if not rest:
                continue
            tr = rnd.sample(rest, 1 if rnd.random() < .7 else rnd.randint(1, len(rest)))
            seen = sorted(set(seen) | {rnd.choice(rest) - 1})
            d = net.frame(size, seen, rnd.random() < .3)
            keep = d.copy()
            lo = [train[names[i - 1]].min() if not net.k[i - 1] else net.labels[i - 1][0] for i in tr]
            hi = [train[names[i - 1]].max() if not net.k[i - 1] else net.labels[i - 1][-1] for i in tr]
            kw = {}
            if rnd.random() < .7:
                hi = [net.draw(i - 1) for i in tr]
                kw['treat'] = hi[0] if len(tr) == 1 and rnd.random() < .5 else hi
            if rnd.random() < .7:
                lo = [net.draw(i - 1) for i in tr]
                kw['control'] = lo[0] if len(tr) == 1 and rnd.random() < .5 else lo
            vec = lambda v: [net.code(i, v[tr.index(i + 1)]) if i + 1 in tr else NONE for i in range(n)]
            rec.update(rows=net.rows(d, size), outs=outs, treat=vec(hi), control=vec(lo))

            def go():
                arg, out = [names[i - 1] for i in tr], [names[i - 1] for i in outs]
                with contextlib.redirect_stdout(io.StringIO()):
                    r = m.estimate(d, arg[0] if len(arg) == 1 and rnd.random() < .5 else arg, out[0] if len(out) == 1 and rnd.random() < .5 else out,
                                   num_samples=rnd.choice([1, 2, 4]), random_state=seed_, **kw)
                rec.update(cols=outs if list(r.columns) == columns(outs, True) else [0], out=table(r, outs, True))
            ok, r = attempt(go)
            rec['kept'] = not unequal(keep, d)
            classes.add(f"estimate{' default' if len(kw) < 2 else ''}{' under do' if any(v != NONE for v in told()[o]) else ''}")
        if not ok:
            rec['raised'] = r
        rec['told'] = told()
        e['ops'].append(rec)
        if not ok:
            break
    if not e['ops']:
        return []
    return [dict(e, _class='network: ' + ', '.join(sorted(classes))[:60])]


# ---------------------------------------------------------------- repetition, refusals, learning
def values(frame):
    return [milli(v) if not isinstance(v, (str, bool, np.bool_)) else sum(map(ord, str(v))) for c in sorted(frame.columns) for v in frame[c]]


def again(seed):
    """the same call with the same seed gives the same, whatever was done in between"""
    from ylearn.bayesian import DAG, SviBayesianNetwork
    rnd = random.Random(seed)
    net, other = Net(rnd, rnd.randint(2, 4)), Net(rnd, 3)
    train, d2 = net.train(), other.train()
    s = rnd.choice([0, 0, 1, 7])
    what = rnd.choice(['fit', 'sample', 'predict', 'estimate', 'do'])
    i = rnd.randrange(net.n)
    j = rnd.choice([x for x in range(net.n) if x != i])
    iv = {net.names[i]: net.draw(i)}
    e = dict(k='again', what=what, raised='', _tag=str(seed), _class=f'again {what}' + (' seed 0' if s == 0 else ''))
    G = DAG(net.pairs())

    def fit():
        return SviBayesianNetwork(G).fit(train, epochs=2, verbose=0, random_state=s)

    def go():
        m = fit()
        out = []
        for k in range(2):
            if k:
                SviBayesianNetwork(DAG(other.pairs())).fit(d2, epochs=1, verbose=0)
                m.sample(n_samples=3)
                m.do({net.names[j]: net.draw(j)}, inplace=False, epochs=1, verbose=0)
            rest = train[[c for c in train.columns if c != net.names[j]]]
            if what == 'fit':
                r = fit().sample(n_samples=6, random_state=5)
            elif what == 'sample':
                r = m.sample(n_samples=6, random_state=s)
            elif what == 'predict':
                r = m.predict(rest, outcome=net.names[j], num_samples=3, proba=True, random_state=s)
            elif what == 'do':
                r = m.do(iv, inplace=False, epochs=2, verbose=0, random_state=s).sample(n_samples=6, random_state=5)
            else:
                with contextlib.redirect_stdout(io.StringIO()):
                    r = m.estimate(rest, net.names[i], net.names[j], num_samples=3, random_state=s)
            out.append(values(r))
        e['first'], e['second'] = out
    ok, r = attempt(go)
    if not ok:
        e['raised'] = r
    return [e]


def refuse(seed):
    from ylearn.bayesian import DAG, SviBayesianNetwork
    rnd = random.Random(seed)
    net = Net(rnd, 3)
    net.kind[0], net.k[0], net.labels[0] = 'cat', 2, ['no', 'up']
    train = net.train()
    m = SviBayesianNetwork(DAG(net.pairs()))
    a, b = net.names[0], net.names[1]
    what = rnd.choice(['sample unfitted', 'predict unfitted', 'do unfitted', 'column missing', 'unknown class', 'unknown treat', 'no intervention'])
    fitted = lambda: m.fit(train, epochs=1, verbose=0)
    q = dict(epochs=1, verbose=0)

    def go():
        if what == 'sample unfitted':
            m.sample(n_samples=2)
        elif what == 'predict unfitted':
            m.predict(train, outcome=a)
        elif what == 'do unfitted':
            m.do({b: net.draw(1)}, **q)
        elif what == 'column missing':
            m.fit(train.drop(columns=rnd.choice(net.names)), **q)
        elif what == 'unknown class':
            m.do({a: 'zzz'}, **q)
        elif what == 'unknown treat':
            with contextlib.redirect_stdout(io.StringIO()):
                m.estimate(train, a, b, treat=rnd.choice(['maybe', 'zzz', 'A']), num_samples=1)
        else:
            m.do({}, **q)
    if what in ('unknown class', 'unknown treat', 'no intervention'):
        fitted()
    ok, r = attempt(go)
    return [dict(k='refuse', what=what, raised='', refused=not ok, _tag=str(seed), _class=f'refuse {what}')]


def learn(seed):
    """networks fitted to data find the mechanisms behind it"""
    from ylearn.bayesian import DAG, SviBayesianNetwork
    rnd = random.Random(seed)
    rs = np.random.RandomState(seed % 2 ** 31)
    n = 300
    slope, icpt, p, shift = rnd.choice([-3, -2, 2, 3]), rnd.choice([-2, -1, 1, 2]), rnd.choice([.1, .15, .85, .9]), rnd.choice([-4, 4])
    x, c = rs.randint(0, 5, n) * 1., np.where(np.arange(n) < p * n, 'a', 'b')
    rs.shuffle(c)
    y = slope * x + icpt + rs.normal(size=n) * .1
    z = y + np.where(c == 'b', shift, 0) + rs.normal(size=n) * .1
    df = pd.DataFrame(dict(x=x, c=c, y=y, z=z))
    e = dict(k='learn', raised='', _tag=str(seed), _class='learn')

    def go():
        m = SviBayesianNetwork(DAG([('x', 'y'), ('y', 'z'), ('c', 'z')])).fit(df, epochs=500, lr=.05, verbose=0, random_state=seed % 1000)
        s = m.sample(n_samples=2000, random_state=1)
        ask = pd.DataFrame(dict(x=[0., 4.], c=['a', 'b']))
        r = m.predict(ask, outcome=['y', 'z'], random_state=1)
        with contextlib.redirect_stdout(io.StringIO()):
            t = m.estimate(ask, 'x', 'z', treat=3., control=1., random_state=1)['z']
            u = m.estimate(ask, 'c', 'z', random_state=1)['z']
        q = m.predict_raw(ask, outcome='y', random_state=1)
        near = lambda name, got, want, tol: dict(name=name, got=milli(got), low=milli(want - tol), high=milli(want + tol))
        e['facts'] = [near('frequency', (s.c == 'a').mean(), p, .07), near('mean', s.x.mean(), x.mean(), .4), near('mean of a descendant', s.y.mean(), y.mean(), 1.2),
                      near('slope', r.y[1] - r.y[0], 4 * slope, .8), near('intercept', r.y[0], icpt, .5), near('second level', r.z[1] - r.z[0], 4 * slope + shift, 1.),
                      near('effect', t.mean(), 2 * slope, .6), near('effect of a category', u.mean(), shift, .8), near('raw prediction', q.y[1] - q.y[0], 4 * slope, 1.)]
    ok, r = attempt(go)
    if not ok:
        e['raised'] = r
    return [e]


def corrupt(e):
    if e['raised']:
        return None
    k = e['k']
    if k == 'graph':
        if not e['accepted']:
            return None
        e['nodes'] = e['nodes'] + [9]
    elif k == 'codec':
        if e['cat']:
            e['binary'] = not e['binary']
        else:
            e['sum'] += 1
    elif k == 'network':
        if e['ops'][-1]['raised']:
            return None
        e['ops'][-1]['told'][0][0] = 7
    elif k == 'again':
        e['first'][0] += 1
    elif k == 'learn':
        e['facts'][0]['got'] += 500
    elif k == 'refuse':
        e['refused'] = False
    return e


def single():
    import torch
    torch.set_num_threads(1)


def one(task):
    single()
    fn, seed = task
    return globals()[fn](seed)


def run():
    c = Check('C20', ['the distributions of the nodes are made point-like by setting the parameters of fitted networks; learned parameters are judged to a tolerance',
                      'rows on which two classes are nearly as likely are not judged'])
    c.model('MC_Bayes', 'MC_Bayes4.cfg' if thorough() else None)
    n = 8 if thorough() else 1
    a = SEED * 100000
    tasks = [(fn, a + i) for fn, k in (('learn', 6), ('again', 48), ('refuse', 48), ('network', 600), ('graphs', 800), ('codec', 600)) for i in range(k * n)]
    evs = [e for l in pmap(one, tasks, chunksize=4) for e in l]
    c.judge('Trace_Bayes', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)

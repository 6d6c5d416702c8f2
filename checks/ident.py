"""drivers of the identification functions, shared by C03 .. C06"""
import itertools
import random
import re

from vp import *
import graphs as G

P = 32749


class Names:
    def __init__(self, V):
        self.order = sorted(V)
        self.bit = {v: 1 << i for i, v in enumerate(self.order)}

    def mask(self, vs):
        if isinstance(vs, str):
            vs = [vs]
        m = 0
        for v in set(vs):
            m |= self.bit[v]
        return m


def ast(prob, names):
    """the expression object of the code as a term of the specification"""
    return dict(v=names.mask(prob.variables), c=names.mask(prob.conditional), m=names.mask(prob.marginal),
                p=[ast(q, names) for q in prob.product], d=[ast(q, names) for q in prob.divisor])


def size(t):
    """how much work the evaluation of a term is"""
    n = 2 ** bin(t['m']).count('1')
    return n * (1 + sum(size(q) for q in t['p'])) + sum(size(q) for q in t['d'])


def parse_latex(s, names):
    """what the printed form of an expression says"""
    pos = 0

    def eat(tok):
        nonlocal pos
        if not s.startswith(tok, pos):
            raise ValueError(f'{tok} expected at {s[pos:pos + 20]!r}')
        pos += len(tok)

    def group(close):
        nonlocal pos
        j = s.index(close, pos)
        r = s[pos:j]
        pos = j + len(close)
        return [x.strip() for x in r.split(',') if x.strip()]

    def expr():
        nonlocal pos
        if s.startswith(r'\frac{', pos):
            eat(r'\frac{')
            t = expr()
            eat('}{')
            t = dict(t)
            d = []
            while s.startswith(r'\left[', pos):
                eat(r'\left[')
                d.append(expr())
                eat(r'\right]')
            eat('}')
            t['d'] = t['d'] + d
            return t
        t = dict(v=0, c=0, m=0, p=[], d=[])
        if s.startswith(r'\sum_{', pos):
            eat(r'\sum_{')
            t['m'] = names.mask(group('}'))
        if s.startswith('P(', pos):
            eat('P(')
            j = s.index(')', pos)
            body = s[pos:j]
            pos = j + 1
            v, _, c = body.partition('|')
            t['v'] = names.mask([x.strip() for x in v.split(',')])
            if c:
                t['c'] = names.mask([x.strip() for x in c.split(',')])
        while s.startswith(r'\left[', pos):
            eat(r'\left[')
            t['p'].append(expr())
            eat(r'\right]')
        return t
    r = expr()
    if pos != len(s):
        raise ValueError('trailing ' + s[pos:])
    return r


def estimand(prob, names, latex=False):
    """[] if the expression is malformed: the specification calls that a missing estimand"""
    try:
        r = [ast(prob, names)]
        if latex:
            r.append(parse_latex(prob.parse(), names))
        if sum(size(t) for t in r) > 60000:
            return None
        return r
    except Exception:
        return []


def numeric(rnd, names, free):
    n = len(names.order)
    return dict(order=names.order, seeds=[rnd.randrange(1, P) for _ in range(3)],
                envs=[rnd.randrange(2 ** n) for _ in range(2)])


def form(rnd, S, many=True):
    """how a caller may write a set of variables"""
    S = list(S)
    if len(S) == 1 and rnd.random() < .6:
        return S[0]
    return rnd.choice([set, list])(S) if many else S[0]


class Session:
    """one model of the code; every query is recorded together with the graph afterwards"""

    def __init__(self, g, rnd):
        from ylearn.causal_model import CausalModel
        self.g, self.rnd = g, rnd
        self.names = Names(g['V'])
        self.events = []
        self.cm = CausalModel(G.make(g, rnd))

    def call(self, k, X, Y, fn, args=(), seconds=60, **fields):
        before = repr([sorted(a) if isinstance(a, set) else a for a in args])
        ok, r = attempt(fn, *args, seconds=seconds)
        args_after = repr([sorted(a) if isinstance(a, set) else a for a in args])
        ok2, s = attempt(G.project, self.cm.causal_graph)
        ev = dict(k=k, g=self.g, X=list(X), Y=list(Y), args='' if before == args_after else 'changed',
                  after=dict(V=s['V'], E=s['E'], B=s['B']) if ok2 else dict(V=[], E=[], B=[]), **fields)
        self.events.append(ev)
        return ok, r, ev

    def numeric(self, ev, prob, latex=False, on=True):
        asts = estimand(prob, self.names, latex)
        if asts is None or not on:
            return False
        ev['out']['asts'] = asts
        ev.update(numeric(self.rnd, self.names, None))
        return True

    # ---- back door
    def bd_valid(self, X, Y, Z):
        a = (form(self.rnd, Z) if Z else set(), form(self.rnd, X), form(self.rnd, Y))
        if isinstance(a[0], str):
            a = ({a[0]},) + a[1:]
        ok, r, ev = self.call('bd_valid', X, Y, lambda z, x, y: bool(self.cm.is_valid_backdoor_set(set(z), x, y)), a, Z=list(Z))
        ev['out'] = dict(kind='val' if ok else 'raised', val=r if ok else False, why='' if ok else r)
        ev['_class'] = str(ev['out']['val'])

    def bd_get(self, X, Y, style, how='get'):
        a = (form(self.rnd, X), form(self.rnd, Y))
        if how == 'get':
            fn = lambda x, y: self.cm.get_backdoor_set(x, y, adjust=style)
        else:
            fn = lambda x, y: self.cm.identify(x, y, identify_method=('backdoor', style))['backdoor']
        ok, r, ev = self.call('bd_get', X, Y, fn, a, style=style)
        self.sets(ok, r, ev, [style == 'simple'])

    def sets(self, ok, r, ev, single):
        out = dict(kind='raised', sets=[], asts=[], why='')
        ev['out'] = out
        try:
            if not ok:
                out['kind'] = 'iderror' if r == 'IdentificationError' else 'raised'
                out['why'] = r
            elif r is None:
                out['kind'] = 'none'
            else:
                found, prob = r
                if single[0]:
                    found = [found]
                out['sets'] = [sorted(s) if not isinstance(s, str) else [s] for s in found]
                out['kind'] = 'sets'
                if not self.numeric(ev, prob):
                    out['asts'] = estimand(prob, self.names) or []
        except Exception as e:
            out['kind'], out['why'] = 'raised', type(e).__name__
        ev['_class'] = f"{ev['style']}/{out['kind']}"

    def bd_paths(self, x, y):
        def fn():
            res = []
            for p in self.cm.get_backdoor_path(x, y):
                q = list(p)
                col = bool(self.cm.has_collider(list(q)))
                op = bool(self.cm.is_connected_backdoor_path(list(q)))
                res.append(dict(p=[n if n in self.names.bit else '~' for n in q], collider=col, open=op))
            return res
        ok, r, ev = self.call('bd_paths', [x], [y], fn)
        ev['out'] = dict(kind='paths' if ok else 'raised', paths=r if ok else [], why='' if ok else r)
        ev['_class'] = f'{len(ev["out"]["paths"])} paths'

    # ---- front door
    def fd_valid(self, x, y, Z):
        a = (set(Z), x, y)
        ok, r, ev = self.call('fd_valid', [x], [y], lambda z, x_, y_: bool(self.cm.is_frontdoor_set(z, x_, y_)), a, Z=list(Z))
        ev['out'] = dict(kind='val' if ok else 'raised', val=r if ok else False, why='' if ok else r)
        ev['_class'] = str(ev['out']['val'])

    def fd_get(self, x, y, style, how='get'):
        a = (form(self.rnd, [x]), form(self.rnd, [y]))
        if how == 'get':
            fn = lambda x_, y_: self.cm.get_frontdoor_set(x_, y_, adjust=style)
        else:
            fn = lambda x_, y_: self.cm.identify(x_, y_, identify_method=('frontdoor', style))['frontdoor']
        ok, r, ev = self.call('fd_get', [x], [y], fn, a, style=style)
        self.sets(ok, r, ev, [style != 'all'])

    # ---- instruments
    def iv_get(self, x, y):
        ok, r, ev = self.call('iv_get', [x], [y], lambda: self.cm.get_iv(x, y))
        try:
            ev['out'] = dict(kind='set' if ok else 'raised', set=sorted(r) if ok and r is not None else [], why='' if ok else r)
        except Exception as e:
            ev['out'] = dict(kind='raised', set=[], why=type(e).__name__)
        ev['_class'] = f"{len(ev['out']['set'])} instruments"

    def iv_valid(self, x, y, Z):
        a = (Z[0] if len(Z) == 1 and self.rnd.random() < .5 else set(Z),)
        ok, r, ev = self.call('iv_valid', [x], [y], lambda z: bool(self.cm.is_valid_iv(x, y, z)), a, Z=list(Z))
        ev['out'] = dict(kind='val' if ok else 'raised', val=r if ok else False, why='' if ok else r)
        ev['_class'] = f"{ev['out']['kind']} {ev['out']['val']}"

    # ---- general identification
    def id(self, X, Y, how='id', latex=True):
        a = (form(self.rnd, Y), form(self.rnd, X))
        if how == 'id':
            fn = lambda y, x: self.cm.id(y, x)
        else:
            fn = lambda y, x: self.cm.identify(x, y, identify_method='general')['ID']
        ok, r, ev = self.call('id', X, Y, fn, a)
        ev['out'] = dict(kind='prob' if ok else 'iderror' if r == 'IdentificationError' else 'raised', asts=[],
                         why='' if ok else r)
        if ok:
            if not self.numeric(ev, r, latex):
                ev['out']['asts'] = estimand(r, self.names) or []
                if estimand(r, self.names, latex) is None:     # too big to be evaluated: left out
                    self.events.pop()
                    return
        ev['_class'] = ev['out']['kind']

    # ---- estimation with the identified adjustment set
    def estimate(self, X, Y, adj=None, cov=None, explicit=True, pass_roles=True):
        log = {}

        class Stub:
            _is_fitted = False

            def fit(self, data, outcome, treatment, **kw):
                log.update(outcome=outcome, treatment=treatment, **kw)
                self._is_fitted = True
                return self

            def estimate(self, data=None, quantity=None, **kw):
                return 0
        import pandas as pd
        data = pd.DataFrame({v: [0.0, 1.0] for v in self.g['V']})
        t, o = form(self.rnd, X), form(self.rnd, Y)
        t, o = (list(t) if isinstance(t, set) else t), (list(o) if isinstance(o, set) else o)
        kw = dict(treatment=t, outcome=o) if pass_roles else {}
        if adj is not None:
            kw['adjustment'] = list(adj)
        if cov is not None:
            kw['covariate'] = list(cov)

        def fn():
            return self.cm.estimate(Stub(), data=data, **kw)
        ok, r, ev = self.call('estimate', X, Y, fn, explicit=explicit, adj=list(adj or []), cov=list(cov or []))

        def listed(v):
            return [] if v is None else [v] if isinstance(v, str) else sorted(v)
        if ok and log:
            ev['out'] = dict(kind='fit', adj=listed(log.get('adjustment')), cov=listed(log.get('covariate')))
            if set(listed(log['treatment'])) != set(X) or set(listed(log['outcome'])) != set(Y):
                ev['out']['kind'] = 'raised'
        elif r in ('AssertionError', 'IdentificationError'):
            ev['out'] = dict(kind='refused', adj=[], cov=[])
        else:
            ev['out'] = dict(kind='raised', adj=[], cov=[], why=r)
        ev['_class'] = ('explicit ' if explicit else 'implicit ') + ev['out']['kind']


def pick_xy(rnd, V, nx=1, ny=1):
    p = list(V)
    rnd.shuffle(p)
    return p[:nx], p[nx:nx + ny], p[nx + ny:]


def corrupt(e):
    o = e['out']
    if 'val' in o and o['kind'] == 'val':
        o['val'] = not o['val']
    elif e['k'] in ('bd_get', 'fd_get') and o['kind'] == 'sets':
        o['kind'] = 'iderror'
    elif e['k'] == 'iv_get':
        o['set'] = o['set'] + ['zz']
    elif e['k'] == 'id' and o['kind'] == 'prob' and o['asts']:
        o['kind'] = 'iderror'
    elif e['k'] == 'id' and o['kind'] == 'iderror':
        o['kind'] = 'prob'
    else:
        return None
    return e


def graphs_for(rnd, n3, n4, nr, sizes=(4, 5), maxarcs=5):
    gs = list(G.all_graphs(3))
    gs = gs if n3 is None else rnd.sample(gs, n3)
    four = list(G.all_graphs(4, ordered=True))
    gs += four if n4 is None else rnd.sample(four, n4)
    while nr:
        g = G.rand_graph(rnd, rnd.choice(sizes), rnd.choice([.35, .5, .7]), rnd.choice([0, .15, .3, .45]),
                         names=rnd.choice([G.NAMES, ['x', 'x1', 'y', 'y1', 'w', 'U0', 'U1'], ['treat', 't', 'out', 'o', 'm', 'v', 'u']]))
        if len(g['B']) <= maxarcs:
            gs.append(g)
            nr -= 1
    return gs


# ---- larger graphs of the literature: what they show takes more variables than a random small graph has
GALLERY = {
    'napkin': ('w>z z>x x>y w~x w~y', 'x', 'y'),
    'napkin tail': ('v>w w>z z>x x>y w~x w~y', 'x', 'y'),
    'napkin long': ('w>v v>z z>x x>y w~x w~y', 'x', 'y'),
    'napkin mediator': ('w>z z>x x>m m>y w~x w~y', 'x', 'y'),
    'fan': ('a>x a>y b>x b>y c>x c>y d>x d>y x>y', 'x', 'y'),
    'crossed fan': ('a>x b>y a>b c>x d>y c>d x>y', 'x', 'y'),
    'far confounder': ('c>a a>x c>b b>y x>y', 'x', 'y'),
    'hidden far confounder': ('a>x b>y a~b x>y', 'x', 'y'),
    'm bias': ('x>y x~m m~y m>n', 'x', 'y'),
    'm bias cause': ('x>y m>x x~m m~y', 'x', 'y'),
    'long mediator': ('x>a a>b b>c c>y x~y', 'x', 'y'),
    'two mediators': ('x>m m>y x>a a>b b>c c>y x~y', 'x', 'y'),
    'crossed mediators': ('x>a a>b b>y x>c c>b a>y x~y', 'x', 'y'),
    'verma': ('a>b b>c c>d b~d', 'a', 'd'),
    'iv chain': ('c>d d>z z>x x>y c>y x~y', 'x', 'y'),
    'iv hidden': ('r>z z>x x>y x~y r~y', 'x', 'y'),
    'iv two': ('z>x u>x x>y x~y u>v v>y', 'x', 'y'),
    'conditional front door': ('x>m m>y w>x w>m w>y x~y', 'x', 'y'),
    'shpitser': ('b>x b>a b>c x>a a>y c>y x~b x~c x~y b~y', 'x', 'y'),
    'mediated pair': ('x>m m>v v>y x~v m~y', 'x', 'y'),
    'bow behind': ('w>x x>m m>y w~m x~y', 'x', 'y'),
    'colliders': ('a>c b>c a>x b>y c>d x>y', 'x', 'y'),
    'two treatments': ('x>m m>v v>y x~y a>x a>v', 'x', 'y'),
}


def gallery(rnd, n, most=7, maxarcs=5):
    """[(graph, treatment, outcome)]: graphs of the gallery, some changed in one edge, under random names"""
    out = []
    while len(out) < n:
        text, x, y = rnd.choice(list(GALLERY.values()))
        E = [tuple(t.split('>')) for t in text.split() if '>' in t]
        B = {tuple(sorted(t.split('~'))) for t in text.split() if '~' in t}
        V = sorted({v for e in E for v in e} | {v for b in B for v in b})
        if rnd.random() < .5:
            change = rnd.choice(['arc', 'edge', 'drop'])
            a, b = rnd.sample(V, 2)
            if change == 'arc':
                B ^= {tuple(sorted((a, b)))}
            elif change == 'drop':
                E.remove(rnd.choice(E))
            elif (b, a) not in E and (a, b) not in E and G.acyclic(V, E + [(a, b)]):
                E.append((a, b))
        if len(V) > most or len(B) > maxarcs:
            continue
        new = rnd.sample(rnd.choice([G.NAMES, ['x', 'x1', 'y', 'y1', 'w', 'U0', 'U1', 'U_U0']]), len(V))
        nm = dict(zip(V, new))
        out.append((G.gjson(new, [(nm[a], nm[b]) for a, b in E], [(nm[a], nm[b]) for a, b in B]), nm[x], nm[y]))
    return out

"""C19: preparing data: cleaning, encoding, mapping and selecting columns, tasks and scores"""
import random

import numpy as np
import pandas as pd

from vp import *

BIG = 2 ** 31 - 1
UP = 1000000
NUMERALS = ['0', '1', '2', '3', '4', '5', '7', '10', '-1']
WORDS = ['a', 'b', 'x y', 'no', '?', '', 'NA']
NONE = '<missing>'


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and all(x == y or (x != x and y != y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    return bool(a.equals(b) and a.index.equals(b.index) and (a.ndim == 1 or list(a.columns) == list(b.columns) and (a.dtypes == b.dtypes).all()))


def num(v):
    if v is None or v != v:
        return BIG
    if v in (np.inf, -np.inf):
        return UP if v > 0 else -UP
    return int(v) if float(v) == int(v) and abs(v) < UP else BIG - 1


def kind_of(s):
    if isinstance(s.dtype, pd.CategoricalDtype):
        return 'category'
    return {'i': 'int', 'u': 'int', 'f': 'float', 'b': 'bool', 'O': 'text'}.get(s.dtype.kind, 'text')


def column(name, s):
    k = kind_of(s)
    if k == 'text' and (known := [v for v in s if not pd.isnull(v)]) and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in known):
        k = 'object'
    if k in ('text', 'category'):
        cells = [NONE if pd.isnull(v) else v if isinstance(v, str) else '!' + repr(v) for v in s]
    else:
        cells = [num(v) for v in s]
    return dict(name=str(name), kind=k, cells=cells)


def table(df):
    return [column(c, df[c]) for c in df.columns]


def index(rnd, n):
    z = rnd.random()
    if z < .5:
        return list(range(n))
    if z < .7:
        return [f'r{i}' for i in range(n)]
    if z < .85:
        return rnd.sample(range(100, 100 + 3 * n), n)
    return [rnd.randint(0, 2) for _ in range(n)]


# ---------------------------------------------------------------- cleaning
def cells(rnd, kind, n, few, lo=0):
    if kind == 'int':
        return pd.array([rnd.randint(lo, lo + few) for _ in range(n)], dtype=rnd.choice(['int64', 'int64', 'int32', 'int8', 'uint8' if lo >= 0 else 'int16'])), None
    if kind == 'float':
        return [rnd.choice([rnd.randint(lo, lo + few)] * 5 + [np.nan, np.inf, -np.inf]) * 1.0 for _ in range(n)], float
    if kind == 'bool':
        return [rnd.random() < .5 for _ in range(n)], bool
    if kind == 'id':
        v = [f'k{i}' for i in range(n)]
        rnd.shuffle(v)
        if rnd.random() < .4:
            v[0] = v[-1] if rnd.random() < .5 else np.nan
        return v, object
    if kind == 'numeral':
        w = rnd.sample(NUMERALS, min(few + 1, 5))
        return [rnd.choice(w * 3 + [np.nan]) for _ in range(n)], object
    if kind == 'text':
        w = rnd.sample(WORDS, min(few + 1, 4)) + rnd.sample(NUMERALS, 1)
        return [rnd.choice(w * 3 + [np.nan]) for _ in range(n)], object
    if kind == 'category':
        w = rnd.sample(WORDS, min(few + 1, 4)) if rnd.random() < .6 else rnd.sample(NUMERALS, 3)
        return [rnd.choice(w * 3 + [np.nan]) for _ in range(n)], 'category'
    if kind == 'object':
        return [rnd.choice([rnd.randint(lo, lo + few)] * 5 + [np.nan, np.inf, -np.inf]) * 1.0 for _ in range(n)], object
    if kind == 'empty':
        return [np.nan] * n, rnd.choice([float, object])
    raise ValueError(kind)


def later(rnd, df, kinds, n, o):
    """new data with the columns of df, some of them of another type"""
    d = {}
    for c in df.columns:
        k, few = kinds[c]
        z = rnd.random() if c not in o['reserve'] else 1
        if k == 'id':
            v, t = [rnd.choice(['k0', 'k1', 'zz']) for _ in range(n)], object
        elif k == 'int' and z < .2:
            v, t = [rnd.choice([1, 2, 3, np.nan, np.inf]) for _ in range(n)], float
        elif k == 'int' and z < .35:
            v, t = [rnd.choice(NUMERALS) for _ in range(n)], object
        elif k == 'float' and z < .2:
            v, t = [rnd.randint(0, 5) for _ in range(n)], int
        elif k == 'float' and z < .3:
            v, t = [rnd.choice(NUMERALS + [np.nan]) for _ in range(n)], object
        elif k == 'numeral' and z < .2:
            v, t = [rnd.choice(NUMERALS[:3] + WORDS[:1]) for _ in range(n)], object
        elif k == 'numeral' and z < .3:
            v, t = [rnd.randint(0, 5) for _ in range(n)], int
        elif k == 'category' and z < .2:
            v, t = [rnd.choice(WORDS[:3]) for _ in range(n)], object
        else:
            v, t = cells(rnd, k, n, few)
        d[c] = pd.Series(v, dtype=t) if t is not None else pd.Series(v)
    return pd.DataFrame(d)


def label(rnd, n):
    """a label as the cleaner takes it, and as a column"""
    z = rnd.random()
    if z < .4:
        return None
    if z < .7:
        return pd.Series([rnd.choice([0., 1., 2., np.nan]) for _ in range(n)])
    if z < .9:
        return pd.Series([rnd.choice(['u', 'v', np.nan, '?']) for _ in range(n)], dtype=object)
    return pd.Series([rnd.randint(0, 3) for _ in range(n)])


def clean(seed):
    from ylearn.sklearn_ex import DataCleaner
    rnd = random.Random(seed)
    evs = []
    o = dict(chars=rnd.choice([[], [], ['?'], ['?', 'NA'], ['']]), droplabel=rnd.random() < .8, drop=[], dup=rnd.random() < .5, id=rnd.random() < .7, const=rnd.random() < .8,
             inf=rnd.random() < .8, infto=rnd.choice([BIG, BIG, 7]), obj=rnd.random() < .8, int=rnd.random() < .8, reserve=[])
    names = rnd.sample(['c1', 'c0', 'a b', 'z', 'y', 'k', 'x', 'long name of a column'], rnd.randint(2, 6))
    kinds = {c: (rnd.choice(['int', 'int', 'float', 'float', 'bool', 'id', 'numeral', 'numeral', 'text', 'text', 'category', 'empty', 'object']), rnd.choice([0, 1, 2, 4])) for c in names}
    if rnd.random() < .3:
        o['drop'] = rnd.sample(names, 1) + (['absent'] if rnd.random() < .3 else [])
    if rnd.random() < .4:
        o['reserve'] = rnd.sample(names, rnd.choice([1, 2]))
    for c in names:  # numbers kept as objects (replacing characters makes numbers of them already)
        if kinds[c][0] == 'object' and (not o['obj'] or o['chars'] or c in o['reserve']):
            kinds[c] = 'float', kinds[c][1]
    reduce = rnd.random() < .15
    kw = dict(nan_chars=None if not o['chars'] else o['chars'][0] if len(o['chars']) == 1 and rnd.random() < .5 else o['chars'], correct_object_dtype=o['obj'], drop_constant_columns=o['const'],
              drop_duplicated_columns=o['dup'], drop_label_nan_rows=o['droplabel'], drop_idness_columns=o['id'], replace_inf_values=(np.nan if o['infto'] == BIG else o['infto']) if o['inf'] else None,
              drop_columns=o['drop'][:] or None, reserve_columns=o['reserve'] or None, int_convert_to='float' if o['int'] else None, reduce_mem_usage=reduce)
    for k, v in list(kw.items()):  # defaults need not be said
        default = dict(nan_chars=None, correct_object_dtype=True, drop_constant_columns=True, drop_duplicated_columns=False, drop_label_nan_rows=True, drop_idness_columns=True,
                       drop_columns=None, reserve_columns=None, int_convert_to='float', reduce_mem_usage=False)
        if k in default and default[k] == v and rnd.random() < .5:
            del kw[k]
    obj = DataCleaner(**kw)
    early = []
    if rnd.random() < .15:
        early = rnd.sample(names, 1)
        ok, r = attempt(obj.append_drop_columns, early)
        if not ok:
            return [dict(k='clean', raised=r, kept=True, _class='clean')]
        o['drop'] = o['drop'] + early
    for turn in range(rnd.choice([1, 1, 2])):
        n = rnd.choice([3, 5, 8, 12])
        df = later(rnd, pd.DataFrame(columns=names), kinds, n, o) if turn else None
        if df is None:
            d = {}
            for c in names:
                v, t = cells(rnd, *([kinds[c][0], n, kinds[c][1]]))
                d[c] = pd.Series(v, dtype=t) if t is not None else pd.Series(v)
            for c in names[1:]:
                if rnd.random() < .15:
                    src = rnd.choice(names[:names.index(c)])
                    if kinds[src][0] == 'object' and c in o['reserve']:
                        continue
                    d[c], kinds[c] = d[src].copy(), kinds[src]
            df = pd.DataFrame(d)
            # a category equals the text it stands for, True equals 1: both are left out
        y = label(rnd, n)
        ix = index(rnd, n)
        df.index = ix
        if y is not None:
            y.index = ix
            if rnd.random() < .25 and y.dtype != object:
                yy = y.values
            else:
                yy = y
        else:
            yy = None

        def put(frame, lab, at):
            pos = {}
            for i, v in enumerate(at):
                pos.setdefault(v, []).append(i + 1)
            return pos

        def got(out, lab, src):
            """rows are told by the label of the index, repeated labels by their order"""
            rows, used = [], {}
            pos = put(None, None, list(src.index))
            ambiguous = len(out) != len(src) and len(pos) != len(src)
            for v in out.index:
                k = used.get(v, 0)
                used[v] = k + 1
                rows.append(pos[v][k] if v in pos and k < len(pos[v]) else 0)
            return ambiguous, dict(rows=rows, out=table(out), label=[] if lab is None else [column('y', pd.Series(lab))])

        copies = rnd.random() < .85
        before = df.copy()
        yb = None if yy is None else yy.copy()
        fit = table(df)
        ylab = [] if y is None else [column('y', y)]
        e = dict(k='clean', o=o, frame=fit, label=ylab, gone=[], asks=[], told=False, dup=[], id=[], const=[], _tag=f'{seed}/{turn}',
                 _class=f"clean{' label' if y is not None else ''}{' reserved' if o['reserve'] else ''}{' refitted' if turn else ''}")
        rows_after = [i for i in range(n) if y is None or not o['droplabel'] or not (pd.isnull(y.iloc[i]) or y.iloc[i] in o['chars'])]
        if not rows_after:
            break
        args = () if yy is None and rnd.random() < .5 else (yy,)
        ok, r = attempt(obj.fit_transform, df, *args, **({} if copies and rnd.random() < .5 else dict(copy_data=copies)))
        if not ok:
            evs.append(dict(e, raised=r, kept=True))
            break
        X, yo = r
        kept = not copies or (same(before, df) and (yb is None or same(yb, yy)))
        amb, e['got'] = got(X, yo, before)
        if amb:
            break
        e['told'] = o['dup'] and o['id'] and o['const']
        if e['told']:
            e['dup'], e['id'], e['const'] = [[str(c) for c in v] for v in (obj.dropped_duplicated_columns_, obj.dropped_idness_columns_, obj.dropped_constant_columns_)]
        if rnd.random() < .2 and len(X.columns) > 1:
            e['gone'] = [str(rnd.choice(list(X.columns)))]
            attempt(obj.append_drop_columns, e['gone'][:])
        for a in range(rnd.choice([0, 1, 2])):
            if a == 0 and rnd.random() < .3:
                new, m = before.copy(), n
            else:
                m = rnd.choice([2, 4, 6])
                new = later(rnd, before, kinds, m, o)
                new.index = [f'q{i}' for i in range(m)]
                if rnd.random() < .5:
                    new = new[rnd.sample(list(new.columns), len(new.columns))]
                if rnd.random() < .3:
                    new['another'] = 1
            yl = None
            if rnd.random() < .4:
                yl = label(rnd, m)
                if yl is not None:
                    yl.index = new.index
            frame = [c for c in table(new) if c['name'] != 'another']
            nb = new.copy()
            if yl is not None and o['droplabel'] and all(pd.isnull(v) or v in o['chars'] for v in yl):
                continue
            ok, r = attempt(obj.transform, new, *(() if yl is None else (yl,)))
            if not ok:
                e['asks'] = []
                e['raised'] = r
                break
            kept = kept and same(nb, new)
            out, lo = (r, None) if yl is None else r
            amb, g = got(out, lo, nb)
            if not amb:
                e['asks'].append(dict(frame=frame, label=[] if yl is None else [column('y', yl)], got=g))
        e.setdefault('raised', '')
        evs.append(dict(e, kept=kept))
        if e['gone'] or e['raised']:
            break
    return evs


# ---------------------------------------------------------------- encoders
def encoders(seed):
    from ylearn.sklearn_ex import ArrayOneHotEncoder, SafeOrdinalEncoder
    rnd = random.Random(seed)
    one = rnd.random() < .2
    nc = rnd.choice([1, 2, 3])
    asarray = rnd.random() < .3
    mix = ['float'] if asarray and rnd.random() < .5 else ['word'] if asarray else ['int', 'float', 'word', 'word', 'bool', 'small']
    kinds = [rnd.choice(mix) for _ in range(nc)]
    if one:
        kinds = [rnd.choice(['int', 'word']) if not asarray else k for k in kinds]
    word = lambda v: f'w{v:02d}'
    vals = {'int': int, 'small': int, 'float': lambda v: float('nan') if v == BIG else v * .5, 'word': lambda v: np.nan if v == BIG else word(v), 'bool': bool}
    types = {'int': 'int64', 'small': 'int8', 'float': 'float64', 'word': object, 'bool': bool}

    def make(n, hi, gap):
        return [[rnd.choice([0, 1]) if k == 'bool' else BIG if gap and not one and k in ('float', 'word') and rnd.random() < .12 else rnd.randint(0, hi) for _ in range(n)] for k in kinds]

    def build(data, n):
        cols = [pd.Series([vals[k](v) for v in d], dtype=types[k]) for k, d in zip(kinds, data)]
        df = pd.DataFrame({f'c{j}': s for j, s in enumerate(cols)}) if n else pd.DataFrame({f'c{j}': s for j, s in enumerate(cols)}).iloc[:0]
        if asarray:
            return np.array([[vals[k](d[i]) for k, d in zip(kinds, data)] for i in range(n)], dtype=types[kinds[0]]).reshape(n, nc)
        df.index = index(rnd, n)
        return df

    n, m = rnd.choice([1, 3, 6, 9]), rnd.choice([0, 1, 4, 7])
    hi = rnd.choice([1, 3, 6])
    kw = dict(dtype=rnd.choice([int, np.int32, np.float32])) if rnd.random() < .4 else {}
    fit = make(n, hi, rnd.random() < .4 and kw.get('dtype') in (None, np.float32))
    X = build(fit, n)
    if one:
        first = rnd.choice([0, 1])
        m = m or 2
        new = [[rnd.choice(f) if first or rnd.random() < .8 else 9 for _ in range(m)] for f in fit]
        new = [[v if k != 'bool' else min(v, 1) for v in d] for k, d in zip(kinds, new)]
        unknown = any(v not in f for d, f in zip(new, fit) for v in d)
        kw = dict(drop='first') if first else {}
        if unknown:
            kw['handle_unknown'] = 'ignore'
        if rnd.random() < .5:
            kw['dtype'] = rnd.choice([int, np.float32])
        enc = ArrayOneHotEncoder(**kw)
        Z = build(new, m)
        ok, r = attempt(lambda: enc.fit(X).transform(Z))
        e = dict(k='onehot', fit=fit, new=new, first=first, kept=True, _tag=str(seed), _class='onehot')
        if not ok:
            return [dict(e, raised=r)]
        return [dict(e, raised='', dense=isinstance(r, np.ndarray), out=[[num(v) for v in row] for row in np.asarray(r).tolist()])]
    new = make(m, hi + 2, rnd.random() < .4)
    if rnd.random() < .2 and m == n:
        new = fit
    Z = build(new, m)
    enc = SafeOrdinalEncoder(**kw)
    back = lambda k, v: BIG if v is None or v != v else int(v[1:]) if k == 'word' and isinstance(v, str) else num(v * 2) if k == 'float' else num(v) if k in ('int', 'small', 'bool') else BIG - 1
    cols = lambda R: [R[c].tolist() for c in R.columns] if isinstance(R, pd.DataFrame) else [R[:, j].tolist() for j in range(R.shape[1])]
    e = dict(k='encode', fit=fit, kinds=['int' if k == 'int' else 'other' for k in kinds], new=new, _tag=str(seed), _class=f"encode{' array' if asarray else ''}{' no rows' if not m else ''}")
    xb, zb = X.copy(), Z.copy()

    def go():
        enc.fit(X)
        C = enc.transform(Z)
        B = enc.inverse_transform(C)
        q = rnd.choice([1, 3, 6])
        some = [[rnd.randint(-2, hi + 4) for _ in range(q)] for _ in kinds]
        S = np.array(some, dtype=float).T.copy()
        if rnd.random() < .3:
            S[0, :] = np.nan
            some = [[BIG] + s[1:] for s in some]
        elif rnd.random() < .5:
            S = S.astype(int)
        if rnd.random() < .5:
            S = pd.DataFrame(S, columns=[f'c{j}' for j in range(nc)], index=index(rnd, q))
        D = enc.inverse_transform(S)
        return C, B, S, D, some
    if not m:
        go_ = go

        def go():
            enc.fit(X)
            C = enc.transform(Z)
            return C, C, C, C, [[] for _ in kinds]
    ok, r = attempt(go)
    if not ok:
        return [dict(e, raised=r, kept=True)]
    C, B, S, D, some = r
    ix = True
    for a, b in ((Z, C), (C, B), (S, D)):
        ix = ix and isinstance(a, pd.DataFrame) == isinstance(b, pd.DataFrame) and a.shape == b.shape
        if ix and isinstance(a, pd.DataFrame):
            ix = a.index.equals(b.index) and list(a.columns) == list(b.columns)
    want = enc.dtype
    ix = ix and (all(t == want for t in C.dtypes) if isinstance(C, pd.DataFrame) else C.dtype == want)
    return [dict(e, raised='', kept=same(xb, X) and same(zb, Z), index=bool(ix), codes=[[num(v) for v in l] for l in cols(C)], some=some,
                 texts=[[back(k, v) for v in l] for k, l in zip(kinds, cols(D))] if m else [[] for _ in kinds],
                 back=[[back(k, v) for v in l] for k, l in zip(kinds, cols(B))] if m else [[] for _ in kinds])]


def preprocess(seed):
    from ylearn.sklearn_ex import general_preprocessor
    rnd = random.Random(seed)
    names = rnd.sample(['v2', 'v1', 'arm', 'b', 'zz', 'A'], rnd.randint(1, 5))
    kinds = {c: rnd.choice(['text', 'category', 'bool', 'int', 'float', 'float']) for c in names}
    n, m = rnd.randint(2, 7), rnd.randint(1, 5)
    scaled = rnd.random() < .3

    def make(n, fit):
        F, d = [], {}
        for c in names:
            k = kinds[c]
            gap = rnd.random() < .4
            if k in ('text', 'category'):
                v = [BIG if gap and rnd.random() < .3 else rnd.randint(1, 3 if fit else 4) for _ in range(n)]
                s = pd.Series([np.nan if x == BIG else f'w{x}' for x in v], dtype=object)
                if k == 'category':
                    s = s.astype('category')
            elif k == 'bool':
                v = [rnd.randint(0, 1) for _ in range(n)]
                s = pd.Series([bool(x) for x in v])
            elif k == 'int':
                v = [rnd.randint(-3, 5) for _ in range(n)]
                s = pd.Series(v)
            else:
                v = [BIG if gap and rnd.random() < .3 else rnd.randint(-3, 5) for _ in range(n)]
                s = pd.Series([np.nan if x == BIG else float(x) for x in v])
            F.append(dict(name=c, kind=k, cells=v))
            d[c] = s
        df = pd.DataFrame(d)
        df.index = index(rnd, n)
        return F, df
    F, df = make(n, True)
    G, new = make(m, False)
    for f, g in zip(F, G):
        if f['kind'] in ('int', 'float') and (all(v == BIG for v in f['cells'])):
            return []
        if f['kind'] == 'category' or f['kind'] == 'text':  # a column without any text is not a text
            if all(v == BIG for v in f['cells']) or all(v == BIG for v in g['cells']):
                return []
    how = rnd.random() < .3
    if how:
        G, new, m = F, df, n
    elif rnd.random() < .3:
        new = new[rnd.sample(names, len(names))]
    p = general_preprocessor(number_scaler=True) if scaled else general_preprocessor()
    b1, b2 = df.copy(), new.copy()

    def go():
        if how and rnd.random() < .5:
            return p.fit_transform(df)
        p.fit(df) if rnd.random() < .5 else p.fit_transform(df)
        return p.transform(new)
    ok, r = attempt(go)
    e = dict(k='preprocess', fit=F, new=G, scaled=scaled, _tag=str(seed), _class='preprocess' + (' scaled' if scaled else ''))
    if not ok:
        return [dict(e, raised=r, kept=True)]
    return [dict(e, raised='', kept=same(b1, df) and same(b2, new), names=[str(c) for c in r.columns], index=bool(r.index.equals(new.index)),
                 out=[[BIG if v != v or abs(v) > 1e5 else int(round(float(v) * 1000)) for v in r.iloc[:, j]] for j in range(r.shape[1])])]


# ---------------------------------------------------------------- mapping
def transformers():
    class Base:
        def fit(self, X, y=None):
            self.total_ = np.asarray(X, dtype=float).sum(axis=0)
            return self

    class Twice(Base):
        def transform(self, X):
            return X * 2

    class Pair(Base):
        def transform(self, X):
            X = np.asarray(X)
            return np.hstack([X, X + 10])

    class Total(Base):
        def transform(self, X):
            return np.asarray(X).sum(axis=1)

    class Less(Base):
        def fit(self, X):  # takes no labels
            self.total_ = np.asarray(X, dtype=float).sum(axis=0)
            return self

        def transform(self, X):
            return X - self.total_

    class NamedTwo(Base):
        def fit_transform(self, X, y=None):
            return self.fit(X).transform(X)

        def get_feature_names(self, columns=None):
            return [f'{c}!' for c in columns] + [f'{c}?' for c in columns]

        def transform(self, X):
            from scipy import sparse
            return sparse.csr_matrix(np.hstack([np.asarray(X, dtype=float)] * 2))
    return dict(twice=Twice, pair=Pair, total=Total, less=Less, named=NamedTwo)


def mapping(seed):
    from ylearn.sklearn_ex import DataFrameMapper
    rnd = random.Random(seed)
    T = transformers()
    names = rnd.sample(['a', 'b', 'c d', 'e', 'f_g'], rnd.randint(1, 5))
    n, m = rnd.randint(1, 4), rnd.randint(1, 4)
    data = lambda k: {c: [rnd.randint(-3, 5) for _ in range(k)] for c in names}
    d1, d2 = data(n), data(m)

    def make(d, k, extra):
        df = pd.DataFrame(d)
        for c in names:
            if rnd.random() < .3:
                df[c] = df[c].astype(float)
        df.index = index(rnd, k)
        if extra and rnd.random() < .4:
            df = df[rnd.sample(names, len(names))]
        if extra and rnd.random() < .3:
            df['another'] = 1
        return df
    X, Z = make(d1, n, False), make(d2, m, True)

    def trans(t):
        if t == 'none':
            return None
        if t == 'twice,less':
            return [T['twice'](), T['less']()]
        if t == 'less,total':
            return [T['less'](), T['total']()]
        return [T[t]()] if rnd.random() < .2 else T[t]()
    kinds = ['none', 'twice', 'pair', 'total', 'less', 'named', 'twice,less', 'less,total']
    spec, features = [], []
    for _ in range(rnd.choice([0, 1, 1, 2, 3])):
        cols = rnd.sample(names, rnd.randint(1, len(names)))
        t = rnd.choice(kinds)
        alias = rnd.choice(['', '', 'other']) if t in ('total', 'less,total', 'pair') else ''
        spec.append(dict(cols=cols, t=t, alias=alias))
        z = rnd.random()
        sel = cols[0] if len(cols) == 1 and z < .5 else (lambda df, cols=cols: list(cols)) if z < .2 else list(cols)
        opts = {}
        if alias:
            opts['alias'] = alias
        if rnd.random() < .3:
            opts['input_df'] = rnd.random() < .5
        features.append((sel, trans(t), opts) if opts or rnd.random() < .2 else (sel, trans(t)))
    default = rnd.choice(['drop', 'keep', 'twice', 'total', 'less', 'pair'])
    left = [c for c in names if not any(c in s['cols'] for s in spec)]
    if default == 'drop' and not spec:
        default = 'keep'
    frame = rnd.random() < .8
    kw = dict(df_out=frame)
    if rnd.random() < .6:
        kw['input_df'] = rnd.random() < .5
    if default != 'drop' or rnd.random() < .5:
        kw['default'] = False if default == 'drop' else None if default == 'keep' else T[default]()
    mk = lambda: DataFrameMapper(copy.deepcopy(features), **copy.deepcopy(kw))

    def out(r, src):
        a = r.values if frame else r
        return dict(names=[str(c) for c in r.columns] if frame else [], cells=[[num(v) for v in a[:, j].tolist()] for j in range(a.shape[1])],
                    index=bool(r.index.equals(src.index)) if frame else True)
    xb, zb = X.copy(), Z.copy()

    def go():
        p, q = mk(), mk()
        first = out(p.fit_transform(X), X)
        q.fit(X)
        return first, out(p.transform(X), X), out(q.transform(Z), Z), out(p.transform(Z), Z)
    ok, r = attempt(go)
    table_ = lambda d: [dict(name=c, kind='int', cells=d[c]) for c in names]
    e = dict(k='map', fit=table_(d1), new=table_(d2), features=spec, default=default, frame=frame, _tag=str(seed),
             _class=f"map{' default' if default != 'drop' and left else ''}{' array' if not frame else ''}{' overlapping' if sum(len(s['cols']) for s in spec) > len({c for s in spec for c in s['cols']}) else ''}")
    if not ok:
        return [dict(e, raised=r, kept=True)]
    return [dict(e, raised='', kept=same(xb, X) and same(zb, Z), first=r[0], again=r[1], other=r[2], onenew=r[3])]


# ---------------------------------------------------------------- tasks and scores
def tasks(seed):
    from ylearn.utils import infer_task_type
    rnd = random.Random(seed)
    kind = rnd.choice(['int', 'float', 'word', 'bool', 'category'])
    k = rnd.choice([1, 2, 2, 3, 3, 4, 5])
    n = rnd.choice([2, 5, 9, 17, 18, 25, 37, 38, 40, 67, 68, 80])
    k = min(k, n, 2 if kind == 'bool' else 9)
    base = list(range(k)) if kind == 'bool' else rnd.sample(range(0, 9), k)
    gap = kind in ('float', 'word', 'category') and rnd.random() < .4
    v = base + [rnd.choice(base) for _ in range(n - k)]
    if gap:
        v = [BIG if i >= k and rnd.random() < .3 else x for i, x in enumerate(v)]
    rnd.shuffle(v)
    make = {'int': int, 'float': lambda x: np.nan if x == BIG else float(x), 'word': lambda x: rnd.choice([np.nan, None]) if x == BIG else f'w{x}',
            'bool': bool, 'category': lambda x: np.nan if x == BIG else f'w{x}'}[kind]
    y = pd.Series([make(x) for x in v], dtype={'word': object, 'category': 'category', 'int': rnd.choice(['int64', 'int32']), 'float': rnd.choice([float, 'float32']), 'bool': bool}[kind])
    y.index = index(rnd, n)
    form = rnd.choice(['series', 'series', 'array', 'column', 'frame'])
    if kind == 'category' and form != 'frame':
        form = 'series'
    Y = y if form == 'series' else y.values if form == 'array' else y.values.reshape(-1, 1) if form == 'column' else y.to_frame('y')
    out = rnd.sample(base, 1) if rnd.random() < .15 else []
    kw = dict(excludes=[make(x) for x in out]) if out else {}
    # a one-column frame has no dtype of its own to tell int from float
    ok, r = attempt(infer_task_type, Y, **kw) if form != 'frame' or True else None
    e = dict(k='task', kind={'int': 'int', 'float': 'float'}.get(kind, 'other'), cells=v, out=out, kept=True, _tag=str(seed), _class=f"task {kind}{' missing' if gap else ''} {form}")
    if not ok and r == 'ValueError':
        return [dict(e, raised='', task='none', labels=[])]
    if not ok:
        return [dict(e, raised=r)]
    lab = [int(x[1:]) if isinstance(x, str) else num(x) for x in r[1]]
    return [dict(e, raised='', task=r[0], labels=lab)]


def scores(seed):
    from ylearn.utils import calc_score
    rnd = random.Random(seed)
    n = rnd.randint(3, 12)
    task = rnd.choice(['binary', 'binary', 'multiclass', 'regression'])
    top = {'binary': 1, 'multiclass': 2, 'regression': 6}[task]
    y = [rnd.randint(0, top) for _ in range(n)]
    if task != 'regression' and len(set(y)) != top + 1 or len(set(y)) < 2:
        return []
    p = [rnd.randint(0, top) if rnd.random() < .5 else v for v in y]
    s = [rnd.randint(0, 4) for _ in y]
    kind = 'num' if task == 'regression' else rnd.choice(['num', 'word', 'far'])
    lab = {'num': lambda v: v, 'word': lambda v: f'w{v}', 'far': lambda v: 10 * v - 10}[kind]
    metrics = {'binary': ['accuracy', 'precision', 'recall', 'f1', 'auc'], 'multiclass': ['accuracy', 'precision', 'recall', 'f1'], 'regression': ['mae', 'mse', 'rmse', 'r2']}[task]
    say = rnd.random() < .7 or task == 'regression' or (task == 'multiclass' and kind != 'word')

    def wrong(a, b):
        return float((np.asarray(a) != np.asarray(b)).sum())
    if rnd.random() < .6:
        ask = rnd.sample(metrics, rnd.randint(1, len(metrics)))
        if rnd.random() < .2:
            ask.append('wrong')
        if task != 'regression' and kind == 'num' and rnd.random() < .3:
            ask += ['mae']
    else:
        ask = []
    want = ask or {'regression': ['mae', 'mse', 'rmse']}.get(task, ['accuracy', 'precision', 'recall', 'f1'])
    kw = dict(metrics=[wrong if a == 'wrong' else a.upper() if a in ('auc', 'f1') and rnd.random() < .2 else a for a in ask]) if ask else {}
    names = [getattr(a, '__name__', a) for a in kw['metrics']] if ask else want
    if say:
        kw['task'] = task
    classes = []
    if task == 'multiclass' and rnd.random() < .3:
        classes = list(range(top + 1)) + ([top + 1] if rnd.random() < .3 else [])
        kw['classes'] = [lab(c) for c in classes]
    pos = []
    if task == 'binary' and rnd.random() < .3:
        pos = [rnd.randint(0, 1)]
        kw['pos_label'] = lab(pos[0])
    dtype = object if kind == 'word' and rnd.random() < .5 else None
    Y, P = np.array([lab(v) for v in y], dtype=dtype), np.array([lab(v) for v in p], dtype=dtype)
    if rnd.random() < .4:
        Y = pd.Series(Y)
    S = np.array([[1 - v / 5, v / 5] for v in s]) if rnd.random() < .5 else np.array([v / 5 for v in s])
    if S.ndim == 1 and rnd.random() < .3:
        S = S.reshape(-1, 1)
    if rnd.random() < .3:
        P = P.reshape(-1, 1)
    args = (Y, P, S) if 'auc' in want else (Y, P)
    ok, r = attempt(calc_score, *args, **kw)
    e = dict(k='score', task=task, y=y, p=p, s=s, classes=classes, pos=pos, asked=want, kept=True, _tag=str(seed), _class=f'score {task}')
    if not ok:
        return [dict(e, raised=r)]
    got = [dict(m=want[names.index(m)] if m in names else str(m), v=int(v) if m == 'wrong' else int(round((v ** 2 if m == 'rmse' else v) * 100000))) for m, v in r.items()]
    return [dict(e, raised='', got=got)]


# ---------------------------------------------------------------- selecting
def select(seed):
    from ylearn.sklearn_ex import FeatureImportancesSelectionTransformer
    rnd = random.Random(seed)
    rs = np.random.RandomState(seed % 2 ** 31)
    np.random.seed(seed % 2 ** 31)
    n = 150
    names = rnd.sample(['n1', 'n0', 'c', 'b', 'zz'], rnd.randint(3, 5))
    d, tell = {}, rnd.choice(names)
    y = None
    for c in names:
        k = rnd.choice(['num', 'text', 'bool', 'int'])
        v = rs.randint(0, 2, n) if k == 'bool' else rs.randint(0, 3, n)
        if c == tell:
            y = v
        d[c] = [bool(x) for x in v] if k == 'bool' else [f'w{x}' for x in v] if k == 'text' else v.astype(float if k == 'num' else int)
    X = pd.DataFrame(d)[names]
    constant = [False] * len(names)
    by = rnd.choice(['threshold', 'threshold', 'quantile', 'number', 'number', 'default'])
    if rnd.random() < .4:
        c = rnd.choice([c for c in names if c != tell])
        X[c] = 1
        constant[names.index(c)] = True
    task = rnd.choice(['regression', 'binary'])
    lab = pd.Series((y * 10 + rs.randint(0, 2, n) * .5) if task == 'regression' else np.where(y > 0, *rnd.choice([('yes', 'no'), ('yes', 'no'), (1, 0), (5, -3), (2, 1), (7.0, 1.0), (0, 1)])))
    if task == 'regression' and rnd.random() < .5:
        lab = lab.values
    kw, a, b = {}, 1, 10
    if by == 'threshold':
        a, b = rnd.choice([(1, 1000), (1, 20), (1, 2), (1, 10)])
        kw = dict(threshold=a / b)
        if (a, b) == (1, 10) and rnd.random() < .5:
            kw = dict(strategy='threshold')
    elif by == 'quantile':
        a, b = rnd.choice([(1, 4), (1, 2), (3, 4), (1, 5)])
        kw = dict(quantile=a / b)
        if (a, b) == (1, 5):
            kw = dict(strategy='quantile')
    elif by == 'number':
        a, b = rnd.choice([(1, 1), (2, 1), (9, 1), (1, 2), (4, 5), (1, 3), (1, 2), (3, 5), (1, 4)])
        kw = dict(number=a if b == 1 else a / b)
        if (a, b) == (4, 5):
            kw = dict(strategy='number')
    else:
        by = 'threshold'
    for k in ('threshold', 'quantile', 'number'):
        if k in kw and rnd.random() < .5:
            kw['strategy'] = k
    if rnd.random() < .5:
        kw['task'] = task
    X.index = index(rnd, n) if rnd.random() < .5 else range(n)
    if isinstance(lab, pd.Series):
        lab.index = X.index
    keep = X.copy()
    tf = FeatureImportancesSelectionTransformer(**kw)

    def go():
        tf.fit(X, lab)
        return tf.transform(X)
    ok, r = attempt(go)
    e = dict(k='select', columns=names, constant=constant, telling=names.index(tell) + 1, by=by, a=a, b=b, _tag=str(seed), _class=f"select {by}{' constant' if any(constant) else ''}")
    if not ok:
        return [dict(e, raised=r, kept=True)]
    return [dict(e, raised='', kept=same(keep, X), names=[str(c) for c in tf.feature_names_in_], imp=[int(round(float(v) * 1000000)) for v in tf.feature_importances_],
                 selected=[str(c) for c in tf.selected_features_], out=[str(c) for c in r.columns], index=bool(r.index.equals(X.index)))]


def corrupt(e):
    if e['raised']:
        return None
    k = e['k']
    if k == 'clean':
        if not e['got']['out'] or not e['got']['out'][0]['cells']:
            return None
        c = e['got']['out'][0]['cells']
        c[0] = c[0] + 'z' if isinstance(c[0], str) else 55
    elif k == 'encode':
        if not e['codes'][0]:
            return None
        e['codes'][0][0] = 44
    elif k == 'onehot':
        if not e['out'][0]:
            return None
        e['out'][0][0] = 1 - e['out'][0][0]
    elif k == 'preprocess':
        e['names'] = e['names'] + ['z']
    elif k == 'map':
        e['other']['cells'][0][0] += 1
    elif k == 'task':
        e['task'] = 'regression' if e['task'] != 'regression' else 'multiclass'
        e['labels'] = []
    elif k == 'score':
        e['got'][0]['v'] += 5000
    elif k == 'select':
        e['imp'][e['telling'] - 1] = -5
    return e


def run():
    c = Check('C19', ['columns hold small whole numbers, numerals and words; True is never compared with 1',
                      'the gradient boosting behind feature importances is trusted to find the one column which tells'])
    c.model('MC_Prepare', 'MC_Prepare3.cfg' if thorough() else None)
    n = 8000 if thorough() else 900
    a = SEED * 100000
    evs = []
    for fn, k in ((clean, n), (encoders, n), (preprocess, n // 2), (mapping, n), (tasks, n), (scores, n), (select, n // 12)):
        evs += [e for l in pmap(fn, range(a, a + k), chunksize=20 if fn is not select else 2) for e in l]
    c.judge('Trace_Prepare', evs, corrupt=corrupt)
    c.finish()


if __name__ == '__main__':
    main(run)
